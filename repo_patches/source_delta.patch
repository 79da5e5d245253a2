From d01ea9c08c406f80db286be19c907a3d590ccb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:02 +0000
Subject: [PATCH 01/26] fix: reject empty and wrongly sized colours instead of
 panicking

fill="", rgb(,,) and #a indexed past the end of the value.
---
 patterns.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/patterns.go b/patterns.go
index fe7f40f..953dd9e 100644
--- a/patterns.go
+++ b/patterns.go
@@ -90,7 +90,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 		}
 		return toOptColor(NewPlainColor(cvals[0], cvals[1], cvals[2], 0xFF)), nil
 	}
-	if colorStr[0] == '#' {
+	if strings.HasPrefix(colorStr, "#") {
 		r, g, b, err := parseSVGColorNum(colorStr)
 		if err != nil {
 			return optionnalColor{}, err
@@ -101,7 +101,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 }
 
 func parseColorValue(v string) (uint8, error) {
-	if v[len(v)-1] == '%' {
+	if strings.HasSuffix(v, "%") {
 		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
 		if err != nil {
 			return 0, err
@@ -119,7 +119,10 @@ func parseColorValue(v string) (uint8, error) {
 func parseSVGColorNum(colorStr string) (r, g, b uint8, err error) {
 	colorStr = strings.TrimPrefix(colorStr, "#")
 	var t uint64
-	if len(colorStr) != 6 {
+	if len(colorStr) != 3 && len(colorStr) != 6 {
+		return 0, 0, 0, errParamMismatch
+	}
+	if len(colorStr) == 3 {
 		// SVG specs say duplicate characters in case of 3 digit hex number
 		colorStr = string([]byte{
 			colorStr[0], colorStr[0],
-- 
2.43.0


From 3f1c3d3653cbc1890014dcdd0e15916207bc3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:03 +0000
Subject: [PATCH 02/26] fix: clamp out of range rgb() components instead of
 wrapping them

---
 patterns.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/patterns.go b/patterns.go
index 953dd9e..d648838 100644
--- a/patterns.go
+++ b/patterns.go
@@ -106,13 +106,21 @@ func parseColorValue(v string) (uint8, error) {
 		if err != nil {
 			return 0, err
 		}
-		return uint8(n * 0xFF / 100), nil
+		return uint8(clampInt(n, 100) * 0xFF / 100), nil
 	}
 	n, err := strconv.Atoi(strings.TrimSpace(v))
-	if n > 255 {
-		n = 255
+	return uint8(clampInt(n, 0xFF)), err
+}
+
+// clampInt limits n to the range from 0 to max
+func clampInt(n, max int) int {
+	if n < 0 {
+		return 0
+	}
+	if n > max {
+		return max
 	}
-	return uint8(n), err
+	return n
 }
 
 // parseSVGColorNum reads the SFG color string e.g. #FBD9BD
-- 
2.43.0


From 8ab1cfc6d50c0157158636902ffde25c8cf8048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:04 +0000
Subject: [PATCH 03/26] fix: do not overwrite the masks of already parsed
 siblings

The mask list was appended to in place, in an array shared with the parent style.
---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a45309f..72559d4 100644
--- a/parse.go
+++ b/parse.go
@@ -294,7 +294,8 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
-		curStyle.Masks = append(curStyle.Masks, id)
+		// the parent style shares the backing array: never append in place
+		curStyle.Masks = append(curStyle.Masks[:len(curStyle.Masks):len(curStyle.Masks)], id)
 	}
 	return nil
 }
-- 
2.43.0


From ca518bc58047f8160e631b9b81382cc74d297685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 04/26] fix: stroke-dasharray none switches an inherited dash
 array off

---
 parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 72559d4..1289222 100644
--- a/parse.go
+++ b/parse.go
@@ -259,7 +259,9 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Dash.DashOffset = dashOffset
 	case "stroke-dasharray":
-		if v != "none" {
+		if v == "none" {
+			curStyle.Dash.Dash = nil
+		} else {
 			dashes := splitOnCommaOrSpace(v)
 			dList := make([]float64, len(dashes))
 			for i, dstr := range dashes {
@@ -270,7 +272,6 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 				dList[i] = d
 			}
 			curStyle.Dash.Dash = dList
-			break
 		}
 	case "opacity", "stroke-opacity", "fill-opacity":
 		op, err := parseBasicFloat(v)
-- 
2.43.0


From de5983c6a7e710547d7b1b7f20bc49f3d3d682ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 05/26] fix: draw each arc of an arc command from its own
 parameters

Every repeated parameter set was drawn with the radii, flags and end point of
the first one, and the end point ignored the offset of a use element.
---
 parse_path.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse_path.go b/parse_path.go
index d87d75f..33dc33f 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -400,5 +400,9 @@ func (c *pathCursor) ellipseAt(cx, cy, rx, ry float64) {
 func (c *pathCursor) addArcFromA(points []float64) {
 	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, c.placeX,
 		c.placeY, points[5], points[6], points[4] == 0, points[3] == 0)
-	c.placeX, c.placeY = c.path.addArc(c.points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
+	arc := append([]float64{}, points[:7]...)
+	arc[5] += c.curX
+	arc[6] += c.curY
+	c.path.addArc(arc, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
+	c.placeX, c.placeY = points[5], points[6]
 }
-- 
2.43.0


From 033284da0624fe7c72562f746e768f15cea5f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:06 +0000
Subject: [PATCH 06/26] fix: a polyline or polygon without points draws nothing

It was drawn with the numbers left over from the previous element.
---
 svg_elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svg_elements.go b/svg_elements.go
index 93ba5f9..b5b6928 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -206,6 +206,7 @@ func lineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polylineF(c *svgCursor, attrs []xml.Attr) error {
 	var err error
+	c.points = c.points[0:0]
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "points":
-- 
2.43.0


From deabbea1c847f7937b6415e7e0928d7457770f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:07 +0000
Subject: [PATCH 07/26] fix: write a single command letter for cubic operations

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 1c72359..1c3d8c8 100644
--- a/path.go
+++ b/path.go
@@ -47,7 +47,7 @@ func (op OpQuadTo) String() string {
 }
 
 func (op OpCubicTo) String() string {
-	return "C" + fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
 		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
 }
 
-- 
2.43.0


From d1fce0ffef95a36c1df831c9cfd6cc5c9d04f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:08 +0000
Subject: [PATCH 08/26] fix: the focal radius of a radial gradient defaults to
 0%

---
 svg_elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svg_elements.go b/svg_elements.go
index b5b6928..9a92044 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -336,7 +336,7 @@ func radialGradientF(c *svgCursor, attrs []xml.Attr) error {
 	c.grad = &Gradient{Bounds: c.svg.ViewBox, Matrix: Identity}
 	var setFx, setFy bool
 	var err error
-	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "50%"} // default values
+	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "0%"} // default values
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "id":
-- 
2.43.0


From 092dc72ebb3064bfeae9dd819798cb43ec3920fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:37 +0000
Subject: [PATCH 09/26] fix: bound nested use elements and keep their offsets
 apart

A use element that referred to itself overflowed the stack, and a nested use
element dropped the offset of the one around it.
---
 parse.go        |  1 +
 svg_elements.go | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 1289222..3c6d986 100644
--- a/parse.go
+++ b/parse.go
@@ -21,6 +21,7 @@ type (
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
 		mask                                            *SvgMask
+		useDepth                                        int
 	}
 
 	// definition is used to store what's given in a def tag
diff --git a/svg_elements.go b/svg_elements.go
index 9a92044..085fe42 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -14,6 +14,11 @@ func init() {
 	drawFuncs["use"] = useF
 }
 
+// maxUseDepth limits how deep use elements may refer to each other
+const maxUseDepth = 64
+
+var errUseDepth = errors.New("use elements are nested too deep or refer to themselves")
+
 type svgFunc func(c *svgCursor, attrs []xml.Attr) error
 
 var drawFuncs = map[string]svgFunc{
@@ -459,9 +464,16 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	c.curX, c.curY = x, y
+	if c.useDepth >= maxUseDepth {
+		return errUseDepth
+	}
+	// offsets of nested uses add up, and hold for this use only
+	prevX, prevY := c.curX, c.curY
+	c.curX, c.curY = prevX+x, prevY+y
+	c.useDepth++
 	defer func() {
-		c.curX, c.curY = 0, 0
+		c.curX, c.curY = prevX, prevY
+		c.useDepth--
 	}()
 	if href == "" {
 		return errors.New("only use tags with href is supported")
-- 
2.43.0


From 391ae7f8bd1727280a66cfbaffb143ffb88b14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:38 +0000
Subject: [PATCH 10/26] fix: a use element leaves the style stack as it found
 it

A definition inside of a group popped the styles of the elements around the
use element (and panicked on an empty stack); an unsupported element in a
definition left its style behind and dropped the rest of the definition.
---
 svg_elements.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 085fe42..213aa15 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -485,10 +485,14 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	if !ok {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
+	// the definition may start inside of a group: leave the stack as it was found
+	depth := len(c.styleStack)
 	for _, def := range defs {
 		if def.Tag == "endg" {
 			// pop style
-			c.styleStack = c.styleStack[:len(c.styleStack)-1]
+			if len(c.styleStack) > depth {
+				c.styleStack = c.styleStack[:len(c.styleStack)-1]
+			}
 			continue
 		}
 		if err = c.pushStyle(def.Attrs); err != nil {
@@ -496,8 +500,11 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 		}
 		df, ok := drawFuncs[def.Tag]
 		if !ok {
-			errStr := "Cannot process svg element " + def.Tag
-			return c.handleError(errStr)
+			if err = c.handleError("Cannot process svg element %s", def.Tag); err != nil {
+				return err
+			}
+			c.styleStack = c.styleStack[:len(c.styleStack)-1]
+			continue
 		}
 		if err := df(c, def.Attrs); err != nil {
 			return err
@@ -507,5 +514,6 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 			c.styleStack = c.styleStack[:len(c.styleStack)-1]
 		}
 	}
+	c.styleStack = c.styleStack[:depth]
 	return nil
 }
-- 
2.43.0


From 296262f0d56f6023a1ee829342c1d94ad3ee6b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:18 +0000
Subject: [PATCH 11/26] fix: draw every shape of a used definition, with its
 own style

The shapes of a definition were merged into one path with the style of the use
element, and a path element discarded the shapes before it.
---
 parse.go        | 7 ++++++-
 svg_elements.go | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 3c6d986..c1144ed 100644
--- a/parse.go
+++ b/parse.go
@@ -375,7 +375,13 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		return nil
 	}
 	err = df(c, se.Attr)
+	c.flushPath()
+	return
+}
 
+// flushPath adds the path of the current element, if any, to the mask or to the
+// image, with the style on top of the style stack.
+func (c *svgCursor) flushPath() {
 	if len(c.path) > 0 {
 		// The svgCursor parsed a path from the xml element
 		pathCopy := append(Path{}, c.path...)
@@ -388,5 +394,4 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		}
 		c.path = c.path[:0]
 	}
-	return
 }
diff --git a/svg_elements.go b/svg_elements.go
index 213aa15..4972d4c 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -509,6 +509,7 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 		if err := df(c, def.Attrs); err != nil {
 			return err
 		}
+		c.flushPath()
 		if def.Tag != "g" {
 			// pop style
 			c.styleStack = c.styleStack[:len(c.styleStack)-1]
-- 
2.43.0


From 91d7e50e1caa35c5ec61cf12a70756da535ea1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:19 +0000
Subject: [PATCH 12/26] fix: draw untransformed when no target option is given

The zero matrix collapsed every path to a point.
---
 renderer/options.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/options.go b/renderer/options.go
index cc9b06f..f7e70a8 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -42,6 +42,7 @@ func Target(x, y, w, h float64) RenderOption {
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
 		Opacity: 1,
+		Target:  svg.Identity,
 	}
 	for _, o := range opts {
 		o.apply(s, r)
-- 
2.43.0


From 66a230cab8323be13454c381487a7aa161057a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:19 +0000
Subject: [PATCH 13/26] fix: compose transforms in the order SVG defines

Mult, Scale and Translate mixed up two conventions, so rotate(a x y), nested
group transforms, rounded rectangles with rx != ry and a target rectangle away
from the origin came out wrong. All of them now append the new transform on the
right: it is applied to the points before the ones already there.
---
 matrix.go                | 16 ++++++++--------
 parse.go                 |  7 ++++---
 renderer/draw2d/draw.go  |  2 +-
 renderer/gg/draw.go      |  2 +-
 renderer/options.go      |  2 +-
 renderer/rasterx/draw.go |  2 +-
 6 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/matrix.go b/matrix.go
index 755d110..e43f24d 100644
--- a/matrix.go
+++ b/matrix.go
@@ -73,8 +73,8 @@ func (a Matrix2D) Mult(b Matrix2D) Matrix2D {
 		B: a.B*b.A + a.D*b.B,
 		C: a.A*b.C + a.C*b.D,
 		D: a.B*b.C + a.D*b.D,
-		E: a.A*b.E + a.C*b.F + a.E*b.A,
-		F: a.B*b.E + a.D*b.F + a.F*b.D,
+		E: a.A*b.E + a.C*b.F + a.E,
+		F: a.B*b.E + a.D*b.F + a.F,
 	}
 }
 
@@ -108,11 +108,11 @@ func (a Matrix2D) TransformVector(x1, y1 float64) (x2, y2 float64) {
 func (a Matrix2D) Scale(x, y float64) Matrix2D {
 	return Matrix2D{
 		A: a.A * x,
-		B: a.B * y,
-		C: a.C * x,
+		B: a.B * x,
+		C: a.C * y,
 		D: a.D * y,
-		E: a.E * x,
-		F: a.F * y,
+		E: a.E,
+		F: a.F,
 	}
 }
 
@@ -147,8 +147,8 @@ func (a Matrix2D) Translate(x, y float64) Matrix2D {
 		B: a.B,
 		C: a.C,
 		D: a.D,
-		E: a.E + x,
-		F: a.F + y,
+		E: a.E + a.A*x + a.C*y,
+		F: a.F + a.B*x + a.D*y,
 	}
 }
 
diff --git a/parse.go b/parse.go
index c1144ed..28b5575 100644
--- a/parse.go
+++ b/parse.go
@@ -110,9 +110,10 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
 	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
-	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left.
-	for i := len(ts) - 1; i >= 0; i-- {
-		t := strings.TrimSpace(ts[i])
+	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left:
+	// the rightmost one is applied to the points first, so it is the last factor of the product.
+	for _, t := range ts {
+		t = strings.TrimSpace(t)
 		if len(t) == 0 {
 			continue
 		}
diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 4c51a27..f44d74f 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -73,7 +73,7 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		var fr draw2d.FillRule
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index c586d20..0b58a09 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
 			return err
 		}
 	}
diff --git a/renderer/options.go b/renderer/options.go
index f7e70a8..8097ce4 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -30,7 +30,7 @@ type targetOption struct {
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
 	scaleW := o.W / s.ViewBox.W
 	scaleH := o.H / s.ViewBox.H
-	r.Target = svg.Identity.Translate(o.X-s.ViewBox.X, o.Y-s.ViewBox.Y).Scale(scaleW, scaleH)
+	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
 // Target specifies the rectangle to draw within.
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index b49b9cb..97293ca 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -129,7 +129,7 @@ func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		filler := &gc.Filler
-- 
2.43.0


From 9c1f0d328db0e3c885a278fb08ea114dad4e790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:20 +0000
Subject: [PATCH 14/26] fix: translate(x) leaves y alone

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 28b5575..72231df 100644
--- a/parse.go
+++ b/parse.go
@@ -61,7 +61,7 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 		}
 	case "translate":
 		if ln == 1 {
-			m1 = m1.Translate(c.points[0], c.points[0])
+			m1 = m1.Translate(c.points[0], 0)
 		} else if ln == 2 {
 			m1 = m1.Translate(c.points[0], c.points[1])
 		} else {
-- 
2.43.0


From 695b3b0ac2976487f744527f6ef99da80cc7f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:21 +0000
Subject: [PATCH 15/26] fix: draw all subpaths and leave the open ones open

draw2d kept only the last subpath of a path, and both draw2d and gg closed an
open subpath when the next one started.
---
 renderer/draw2d/draw.go | 3 +--
 renderer/gg/draw.go     | 1 -
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index f44d74f..e8a96d8 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -20,8 +20,6 @@ func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.Close()
-		gc.BeginPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
 	case svg.OpLineTo:
@@ -101,6 +99,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
 	}
 
+	gc.BeginPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 0b58a09..d52fd1d 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -25,7 +25,6 @@ func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 func drawTo(gc *gg.Context, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.ClosePath()
 		gc.NewSubPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
-- 
2.43.0


From 89e0664e0a97d3ae72d7f0b3be4d14691b1d8b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:21 +0000
Subject: [PATCH 16/26] fix: do not draw an invisible path along with the next
 one

A path without fill and stroke stayed in the gg context, and was filled with
the color of the next path.
---
 renderer/gg/draw.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index d52fd1d..db3aaa7 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -133,6 +133,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
 	}
 
+	gc.ClearPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From 62606df1088d770c7e19318df5d22fffcf15eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:40 +0000
Subject: [PATCH 17/26] fix: bound masks that refer to each other

A mask that referred to itself overflowed the stack.
---
 renderer/gg/draw.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index db3aaa7..7dfb681 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -1,6 +1,7 @@
 package gg
 
 import (
+	"errors"
 	"image"
 	"image/color"
 
@@ -10,11 +11,16 @@ import (
 	"github.com/fogleman/gg"
 )
 
+// maxMaskDepth limits how deep masks may refer to each other
+const maxMaskDepth = 16
+
+var errMaskDepth = errors.New("masks are nested too deep or refer to themselves")
+
 // Draw the parsed SVG into the graphic context with the specified options.
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity, 0); err != nil {
 			return err
 		}
 	}
@@ -88,10 +94,10 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 }
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
-func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, maskDepth int) error {
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
+		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, maskDepth)
 		if err != nil {
 			return err
 		}
@@ -153,7 +159,10 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D) (*image.Alpha, error) {
+func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, maskDepth int) (*image.Alpha, error) {
+	if maskDepth >= maxMaskDepth {
+		return nil, errMaskDepth
+	}
 	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
 	mask, ok := s.SvgMasks[masks[len(masks)-1]]
 	if !ok {
@@ -178,7 +187,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1); err != nil {
+		if err := drawTransformed(gc, s, op, m, 1, maskDepth+1); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 6d3fd70089516dba36bb603ea504c66703eb9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:39 +0000
Subject: [PATCH 18/26] fix: stroke colour replaced the fill colour in the gg
 renderer

SetColor sets the fill as well as the stroke colour.
---
 renderer/gg/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 7dfb681..8041791 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -130,9 +130,9 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetLineJoin(toLineJoin(svgp.Style.Join.LineJoin))
 		switch c := svgp.Style.LinerColor.(type) {
 		case svg.PlainColor:
-			gc.SetColor(toColor(c, svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(c, svgp.Style.LineOpacity*opacity)))
 		case svg.Gradient:
-			gc.SetColor(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		gc.SetDash(svgp.Style.Dash.Dash...)
-- 
2.43.0


From 39bd6df5f3c5e8eeb8ff5caf23f3fd3c0baa6eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:06 +0000
Subject: [PATCH 19/26] fix: radial gradients ran inside out in the gg renderer

---
 renderer/gg/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 8041791..6cfb47b 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -84,8 +84,8 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 		// x1, y1, x2, y2
 		grad = gg.NewLinearGradient(dir[0], dir[1], dir[2], dir[3])
 	case svg.Radial:
-		// cx, cy, fx, fy, r, fr
-		grad = gg.NewRadialGradient(dir[0], dir[1], dir[4], dir[2], dir[3], dir[5])
+		// cx, cy, fx, fy, r, fr: from the focal circle to the outer one
+		grad = gg.NewRadialGradient(dir[2], dir[3], dir[5], dir[0], dir[1], dir[4])
 	}
 	for _, stop := range g.Stops {
 		grad.AddColorStop(stop.Offset, toColor(stop.StopColor, stop.Opacity*opacity))
-- 
2.43.0


From 3af408620823b3f190c3bf1eb9f3165c724c7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:18 +0000
Subject: [PATCH 20/26] fix: accept white space after a percentage in rgb()

---
 patterns.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/patterns.go b/patterns.go
index d648838..161e7ff 100644
--- a/patterns.go
+++ b/patterns.go
@@ -101,6 +101,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 }
 
 func parseColorValue(v string) (uint8, error) {
+	v = strings.TrimSpace(v)
 	if strings.HasSuffix(v, "%") {
 		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
 		if err != nil {
-- 
2.43.0


From 47d98b9f22e724a8d81fe89eab80fe071092ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:52 +0000
Subject: [PATCH 21/26] fix: a gradient offset with two percent signs was
 accepted

---
 units.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/units.go b/units.go
index a3d1cbd..aabb03b 100644
--- a/units.go
+++ b/units.go
@@ -89,14 +89,10 @@ func parseBasicFloat(s string) (float64, error) {
 }
 
 func readFraction(v string) (f float64, err error) {
-	v = strings.TrimSpace(v)
-	d := 1.0
-	if strings.HasSuffix(v, "%") {
-		d = 100
-		v = strings.TrimSuffix(v, "%")
+	f, isPercentage, err := parseUnit(v)
+	if isPercentage {
+		f /= 100
 	}
-	f, err = parseBasicFloat(v)
-	f /= d
 	// Is this is an unnecessary restriction? For now fractions can be all values not just in the range [0,1]
 	// if f > 1 {
 	// 	f = 1
-- 
2.43.0


From 86d094165ce3415bcded103edb80298273c5d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:02 +0000
Subject: [PATCH 22/26] fix: values with a colon were cut off at the colon

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 72231df..ea25608 100644
--- a/parse.go
+++ b/parse.go
@@ -319,7 +319,7 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
 	for _, pair := range pairs {
-		kv := strings.Split(pair, ":")
+		kv := strings.SplitN(pair, ":", 2) // the value may contain colons
 		if len(kv) >= 2 {
 			k := strings.ToLower(kv[0])
 			k = strings.TrimSpace(k)
-- 
2.43.0


From 07369de8e7b1533c3a4b5f936d745edef544d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:14 +0000
Subject: [PATCH 23/26] fix: transform functions separated by a comma were
 rejected

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index ea25608..4f2084a 100644
--- a/parse.go
+++ b/parse.go
@@ -113,7 +113,7 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left:
 	// the rightmost one is applied to the points first, so it is the last factor of the product.
 	for _, t := range ts {
-		t = strings.TrimSpace(t)
+		t = strings.TrimSpace(strings.TrimLeft(t, ", \t\r\n"))
 		if len(t) == 0 {
 			continue
 		}
-- 
2.43.0


From 14a552d3b18511b0d17e032e80849c78d7af620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:04 +0000
Subject: [PATCH 24/26] fix: a close after drawing on from a closed subpath was
 ignored

---
 parse_path.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parse_path.go b/parse_path.go
index 33dc33f..af8a542 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -204,7 +204,6 @@ func (c *pathCursor) addSeg(segString string) error {
 			c.path.Stop(true)
 			c.placeX = c.pathStartX
 			c.placeY = c.pathStartY
-			c.inPath = false
 		}
 	case 'm':
 		rel = true
-- 
2.43.0


From c70211324fd9436ada99a97270697cd04a07e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:03 +0000
Subject: [PATCH 25/26] fix: an element named endg in a definition ended the
 group it is in

---
 svg.go          | 2 +-
 svg_elements.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/svg.go b/svg.go
index 81bd73d..d2c4afd 100644
--- a/svg.go
+++ b/svg.go
@@ -101,7 +101,7 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			case "g":
 				if svgCursor.inDefs {
 					svgCursor.currentDef = append(svgCursor.currentDef, definition{
-						Tag: "endg",
+						Tag: endGroup,
 					})
 				}
 			case "mask":
diff --git a/svg_elements.go b/svg_elements.go
index 4972d4c..e2e72f0 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -17,6 +17,9 @@ func init() {
 // maxUseDepth limits how deep use elements may refer to each other
 const maxUseDepth = 64
 
+// endGroup is the tag of the entry that ends a group in a definition; no element has this name
+const endGroup = "/g"
+
 var errUseDepth = errors.New("use elements are nested too deep or refer to themselves")
 
 type svgFunc func(c *svgCursor, attrs []xml.Attr) error
@@ -488,7 +491,7 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	// the definition may start inside of a group: leave the stack as it was found
 	depth := len(c.styleStack)
 	for _, def := range defs {
-		if def.Tag == "endg" {
+		if def.Tag == endGroup {
 			// pop style
 			if len(c.styleStack) > depth {
 				c.styleStack = c.styleStack[:len(c.styleStack)-1]
-- 
2.43.0


From 0c3512c91669a99c391b59b083400f7e14a50e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:04 +0000
Subject: [PATCH 26/26] fix: an ignored path command made a following smooth
 curve forget its control point

---
 parse_path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse_path.go b/parse_path.go
index af8a542..c8ea542 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -375,6 +375,7 @@ func (c *pathCursor) addSeg(segString string) error {
 		if c.errorMode == WarnErrorMode {
 			log.Println("Ignoring svg command " + string(k))
 		}
+		return nil
 	}
 	// So we know how to extend some segment types
 	c.lastKey = k
-- 
2.43.0

