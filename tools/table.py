AI = "abstract interpretation over go/ssa"
PARSE = ["svg.go", "parse.go", "parse_path.go", "svg_elements.go", "styles.go", "patterns.go", "units.go", "shapes.go"]
DRAW = ["renderer/options.go", "renderer/draw2d/draw.go", "renderer/gg/draw.go", "renderer/rasterx/draw.go", "matrix.go"]
TB = " Trusted: the analyzer, its models of the standard library and go/ssa. Constructs the analyzer cannot model are listed as undecided in the evidence and not reported."

prop("C01", "Parsing never panics, whatever the document",
 "For every input and every error mode, parsing an SVG document returns an image or an error; it never panics. In particular no attribute value, element nesting or reference can make it index out of range, dereference nil or write to a nil map.",
 ["inputs"], "every byte stream, every error mode",
 "The tests parse a handful of well-formed icons; a panic needs one particular malformed value or nesting.",
 PARSE, "token loop of Parse, element handlers, path data and attribute readers",
 tech=AI + ": fixpoint of the token loop, every index/slice/nil/map/division/assertion obligation implied by the invariants",
 note="Every potential panic of the library code reached from Parse is an obligation discharged for all documents. Assumes encoding/xml balances elements and the standard library does not panic." + TB)
prop("C02", "Parsing and drawing terminate",
 "For every finite input, parsing terminates, and drawing any image with any of the renderers terminates. In particular elements that refer to themselves or to each other (use, mask) do not recurse or loop forever, and no path data or numeric value makes a loop run without progress.",
 ["inputs"], "every finite document, every image (including ones with cyclic references)",
 "A test that hangs needs the particular cyclic reference or number; none is sampled.",
 PARSE + DRAW, "token loop, tokenizers, arc subdivision, use expansion, mask rendering",
 tech=AI + ": ranking functions for every loop and recursion of the solved fixpoint",
 note="Every loop and every recursion reached from Parse and Draw has a ranking argument found on the solved loop. Assumes the reader is finite." + TB)
prop("C07", "No operation writes package-level state",
 "Parsing, drawing and every other exported operation leave all package-level variables, and everything reachable from them, as package initialisation left them. Hence documents parsed or drawn earlier or concurrently on other goroutines cannot influence a result.",
 ["histories", "schedules"], "every sequence and interleaving of calls of the exported API",
 "The tests run sequentially, each on one document; a leak needs two documents in a particular order or a race.",
 ["svg_elements.go", "parse.go", "patterns.go", "types.go", "matrix.go"] + DRAW, "package-level tables (element handlers, default styles, unit and colour tables)",
 tech=AI + ": effect analysis, no store reaches an object reachable from a package-level variable",
 note="Write-effect analysis of Parse, Draw of each backend and every other exported function for arbitrary arguments. Assumes the libraries used are safe on distinct objects." + TB)
prop("C08", "Drawing does not modify the image",
 "Drawing a parsed image, with any renderer and any options, does not change the image or anything reachable from it (paths, operations, styles, gradients and their stops, masks). Hence drawing it again, or with another renderer, or from another goroutine, gives the same result.",
 ["histories", "schedules", "inputs"], "every image, every option list, every number and order of draws",
 "No test draws anything, let alone twice.",
 DRAW + ["patterns.go"], "Draw and what it calls, gradient localisation",
 tech=AI + ": effect analysis, no store through the image parameter",
 note="Write-effect analysis of Draw of each backend for an arbitrary image. Assumes the graphics libraries do not write to slices passed to them." + TB)
prop("C09", "Renderers forward every path operation, in order, transformed",
 "Drawing sends to the graphics context, for each path of the image in document order, exactly the operations of that path in order (moves, lines, quadratic and cubic curves, closes; all subpaths, open ones left open), each point mapped by the target transform composed with the path's own transform. Nothing of one path leaks into the next, and without a target option the target transform is the identity.",
 ["inputs", "configurations"], "every image, transform and target rectangle; draw2d, gg and rasterx",
 "The tests do not cover the renderers at all.",
 DRAW, "the per-operation dispatch of each renderer and the matrix that is applied",
 tech=AI + ": symbolic coordinates, replay of the context calls in a path model, equality of rational polynomials",
 note="Coordinates, matrices and target are symbolic, so each obligation holds for all values; the operation lists are representative sequences (every kind after every other, several subpaths, a long run). Roundings to 1/64 pixel are outside the property." + TB)
prop("C10", "Fill and stroke use the path's own paint, opacity and rule",
 "A path is filled exactly when it has a fill paint and stroked exactly when it has a stroke paint, the fill first. The paint in force derives from that path's own fill (stroke) paint, channel by channel, scaled once by its own fill (stroke) opacity and once by the opacity option, whatever was drawn before; the fill rule, stroke width (scaled by the transform), dash array and dash offset in force are the path's own (rasterx draws no dashes).",
 ["inputs", "histories", "configurations"], "every image, every sequence of two paths with none, plain or gradient paints, every opacity",
 "The tests do not cover the renderers at all.",
 DRAW + ["patterns.go"], "paint selection and graphics state set-up of each renderer",
 tech=AI + ": symbolic styles, replay in a graphics-state model, dependence and factor analysis of the paint terms",
 note="Decides which style values reach each paint operation and how opacities enter, for all values; the numeric rounding of colours is outside the property." + TB)
prop("C11", "Line caps, joins, gaps and miter limit are rendered as the style says",
 "When a path is stroked, the cap, join, gap and miter limit in force in the graphics context are the ones of the graphics library that correspond to the path's style (with butt caps and flat gaps as defaults, and the other end's cap for a missing leading cap), whatever was drawn before. Modes a library lacks fall back to one it has; a miter join is never drawn round.",
 ["inputs", "histories"], "every cap, join and gap mode, every renderer, after any other path",
 "The tests do not cover the renderers at all.",
 DRAW + ["types.go"], "mode conversion tables of each renderer",
 tech=AI + ": exhaustive over the mode enumerations, replay in a graphics-state model",
 note="Exhaustive over all modes of the API; compared with the constants and functions of the graphics libraries." + TB)

SK = AI + " of Parse over document skeletons (constant propagation for names and keywords, symbolic terms for all numbers): "
SKN = "Every number in a skeleton is a symbol, so an obligation covers all (positive) values; element structure, attribute sets and keywords are enumerated families (listed in the evidence), not all documents. Formulas are compared with an independent statement of the SVG meaning by normal form and polynomial identity testing." + TB
ELEMS = ["svg_elements.go", "parse.go"]
prop("C03", "Malformed values are reported, never dropped",
 "A document with a malformed value makes parsing return an error in every error mode, wherever the value stands: a length, number, offset or opacity that is not a number (or has an unknown unit), a path command or transform function with the wrong number of parameters or an unparsable number, an unknown transform function, a point list of odd length, a viewBox without exactly four numbers, a use without a valid reference to an existing definition (or with a cyclic one), a mask reference that is not url(#id), an empty mask id, XML that is not well formed, a stream without any element. ParseFile reports a file it cannot open and closes the one it opened exactly once on every path.",
 ["inputs", "configurations"], "every element and attribute that takes a number, every path command and transform, every position of the bad value, every error mode",
 "Each error return is one branch among dozens; the tests only cover parsing of valid icons and two malformed ones.",
 PARSE, "error returns of the attribute readers and the path and transform readers",
 tech=SK + "every outcome must return a non-nil error; call events for opening and closing files",
 note=SKN)
prop("C04", "Error modes: unsupported items fail, warn or are skipped",
 "An unsupported item (unknown element, unknown keyword of fill-rule, stroke-linecap, stroke-leadlinecap, stroke-linejoin or stroke-linegap, unknown path command) makes parsing fail in strict mode; in warn mode it is logged and in ignore mode nothing is logged, and in both parsing succeeds with the image of the same document without the item (children of an unknown element are treated as if it were a group). Documents without such items give the same image in all three modes, without log output.",
 ["inputs", "configurations"], "every kind of unsupported item in every kind of surrounding, every error mode",
 "The tests use one mode per document and look for an error only.",
 PARSE, "handling of unknown elements, keywords and path commands",
 tech=SK + "outcomes per error mode compared with the reference meaning of the document without the item, log calls counted as events",
 note=SKN)
prop("C05", "Styles and transforms are scoped by the element tree",
 "Each path of the image carries exactly the style, transform and mask list that its own element and its ancestors (and, for definitions, the use element and its ancestors) give it: styles are inherited from the parent, transforms multiply from the outside in, opacities multiply, mask references accumulate. Siblings, elements parsed before, empty elements, gradients, masks, definitions and uses never influence it, and parsing state is restored when an element ends.",
 ["inputs", "histories"], "every order and nesting of all kinds of elements (enumerated up to pairs, triples in the thorough tier), all numbers",
 "A leak of state needs one particular element followed by another; the tests look at the geometry of a few icons.",
 ELEMS + ["svg.go"], "style stack, path cursor, flags for gradients, masks, definitions and text",
 tech=SK + "complete images compared for all ordered pairs of element kinds in several nestings",
 note=SKN)
prop("C06", "What has been recorded is not changed by what is parsed later",
 "Paths, styles, dash arrays, mask lists, gradients, titles, descriptions, masks and definitions recorded in the image keep the value they were given whatever is parsed afterwards: they share no memory that later parsing overwrites (path and point buffers, style stack, mask lists, stop lists, the decoder's character buffers).",
 ["inputs", "histories"], "runs of elements of all kinds, all capacities of the slices involved",
 "Aliasing shows only for particular lengths and capacities.",
 ELEMS + ["svg.go", "patterns.go", "parse_path.go"], "copies made when a path, style, mask list or gradient is recorded",
 tech=SK + "alias-aware heap: append into possible spare capacity invalidates what shares the array, token buffers are invalidated by the next token",
 note=SKN)
prop("C12", "Lengths: units and percentages",
 "Every length (coordinates, sizes, radii, stroke width, dashes, dash offset, use offsets, mask and gradient geometry) is converted to pixels by its unit: px and none 1, cm 96/2.54, mm 9.6/2.54, pt 96/72, in 96, Q 96/101.6, pc 16. A percentage refers to the view box: to its width for horizontal lengths and stroke width, to its height for vertical ones, to sqrt((w^2+h^2)/2) for other lengths such as r, dashes and dash offset; in gradients to the bounding box (1x1) unless gradientUnits is userSpaceOnUse. The view box is the viewBox attribute, and width and height where that gives no size; Width and Height are recorded as written.",
 ["inputs"], "every length attribute of every element with every unit, all values and view boxes",
 "The tests use unitless numbers only.",
 ["units.go", "svg_elements.go", "parse.go"], "unit tables, percentage references, view box computation",
 tech=SK + "unit factors and percentage bases checked as coefficients of the resulting formulas",
 note=SKN)
prop("C13", "Basic shapes become the outlines they describe",
 "line, rect (with rounded corners, radii clamped to half the size, a missing radius taken from the other), circle, ellipse, polyline and polygon become paths with the geometry the SVG specification gives them: start point, direction, order of corners, closed or open, missing attributes zero, in whatever order attributes come and whatever was parsed before. Shapes with a zero size or radius and point lists of fewer than three points add nothing.",
 ["inputs"], "every shape, every subset and order of its attributes, all values",
 "The tests do not compare coordinates of shapes.",
 ["svg_elements.go", "shapes.go", "parse_path.go"], "element functions, addRect, addRoundRect, ellipseAt, arc approximation",
 tech=SK + "coordinates compared as formulas; elliptic arcs checked to lie on the ellipse described, with its extent and direction",
 note=SKN + " Curves that approximate an ellipse must stay within 0.2% of its radii (plus 1/40 pixel of rounding).")
prop("C14", "Style properties set what they say, in either syntax",
 "Each style property (fill, stroke, fill-rule, line cap, lead cap, join, gap, miter limit, stroke width, dash array and offset, the three opacities, transform, mask) sets exactly the corresponding field of the style and nothing else, as an attribute and inside a style attribute, with any case of the property name and white space around, in any order and combination; later settings replace earlier ones, opacity scales both fill and stroke opacity and multiplies with inherited ones. Defaults: black fill, no stroke, width 2, non-zero winding, miter limit 4, bevel join, butt cap. Unknown properties change nothing.",
 ["inputs", "configurations"], "every property with every keyword and any number, over any inherited style, every ordered pair of properties",
 "The tests check no style field.",
 ["parse.go", "types.go", "svg.go"], "readStyleAttr, pushStyle, DefaultStyle",
 tech=SK + "all fields of the resulting style compared",
 note=SKN)
prop("C15", "Gradients keep their geometry, stops and units",
 "A paint url(#id) refers to the gradient of that id defined before, with its kind, direction (defaults 0%,0%,100%,0% for linear and 50% for radial, focal point from the centre, fr 0), units, spread method, transform and all stops in order with offset (number or percentage), colour and opacity, given as attributes or in a style attribute. Stops without a colour take the colour in force before (black if none); each reference gets its own. An unknown id paints black. ApplyPathExtent maps to the bounding box for objectBoundingBox units only, and GetColor gives the colour or the first coloured stop.",
 ["inputs", "histories"], "every subset of gradient attributes, both unit systems, every spread, all numbers, several gradients and users",
 "No test contains a gradient.",
 ["patterns.go", "svg_elements.go", "styles.go"], "linearGradientF, radialGradientF, stopF, readGradURL, localizeGradIfStopClrNil",
 tech=SK + "gradient values of fills and strokes compared field by field",
 note=SKN)
prop("C16", "Path data means what the SVG grammar says",
 "Path data becomes the operations the SVG specification gives it: all commands absolute and relative, implicit repetition, relative coordinates from the current point (the subpath's start after a close), reflected control points for T and S (the current point if the command before is not of that kind), arcs as curves on the ellipse with the given radii (scaled up if too small), rotation and flags, ending exactly in the end point; numbers may be separated by white space, commas, signs or a second decimal point. A path starts with a clean state whatever was parsed before.",
 ["inputs"], "every pair of commands (triples in the thorough tier) with all coordinates, arcs over all flags and families of radii and rotations",
 "The tests compare a few paths of icons.",
 ["parse_path.go", "shapes.go"], "addSeg, getPoints, reflectControlQuad/Cube, addArcFromA, findEllipseCenter, addArc",
 tech=SK + "coordinates compared as formulas; arcs (constant parameters) checked to lie on the ellipse of the specification",
 note=SKN + " Arc parameters are enumerated constants. Exponents with E or a plus sign are outside the property.")
prop("C17", "use draws the definition again, moved and restyled",
 "A use element adds the paths of the definition it refers to, in order, exactly as if its content stood there in a group with the style and transform of the use element, with all coordinates moved by its x and y (offsets of nested uses add up), any number of times, without changing the definition or anything that follows. Definitions themselves draw nothing; they may be groups and may use other definitions; a later definition with the same id replaces the earlier one.",
 ["inputs", "histories"], "every kind of definition, all offsets and styles, several uses, nested uses, uses in groups and masks",
 "The tests contain no use element.",
 ["svg_elements.go", "parse.go", "svg.go"], "useF, definitions collected in readStartElement, offset handling of every shape",
 tech=SK + "complete images compared with the reference expansion of the use elements",
 note=SKN)
prop("C18", "Paths are built and printed faithfully",
 "The methods Start, Line, QuadBezier, CubeBezier and Stop(true) of Path add exactly one operation with the given points after those already there, Stop(false) adds none and Clear removes all. ToSVGPath and String give, for every path, the letters and coordinates of its operations in order as SVG path data (three decimals, one space between operations), and the String methods of the cap, join and gap modes give the name of the constant.",
 ["inputs"], "every path and every coordinate; every mode",
 "The tests print a handful of paths with moves, lines and quadratic curves.",
 ["path.go", "types.go"], "String methods, ToSVGPath, path building",
 tech=AI + ": building methods for symbolic points and unknown capacity; printing by constant propagation over representative coordinates of all magnitudes and signs, the text read back by an independent grammar",
 note="Building is decided for all coordinates; printing for enumerated coordinates and operation sequences." + TB)
prop("C19", "Matrix methods and transform lists compute the affine maps",
 "Mult, Translate, Scale, Rotate, SkewX, SkewY, Invert, Transform, TransformVector, TFixed and the point methods of Matrix2D compute the affine maps they are named after (each builder multiplies its map on the right, so that it is applied first; Invert is the inverse whenever one exists; LineWidthScale is the mean of A and D). A transform attribute is the product of its functions from left to right, after the parent's transform, with angles in degrees, rotation about a centre, one or two parameters for translate (missing: 0) and scale (missing: the same), in any case and with white space and commas between.",
 ["inputs"], "every matrix, vector and angle; every ordered pair of transform functions (triples in the thorough tier) and nesting",
 "The tests contain one transform of an icon.",
 ["matrix.go", "parse.go"], "Matrix2D methods, parseTransform, readTransformAttr",
 tech=AI + " of each exported method for symbolic arguments and of Parse for transform lists; equality of the resulting formulas by polynomial identity testing",
 note="Matrices, vectors and angles are symbols. Lists are enumerated up to pairs (triples)." + TB)
prop("C20", "Titles, descriptions, masks and shapes go where they belong",
 "Titles and descriptions collect, one entry per element in document order, exactly the character data inside of the element (entities resolved, CDATA included, comments left out), and no text outside. Shapes inside of a mask element go to that mask and nowhere else, in order and with their styles; each mask is recorded under its id with its x, y, width and height (a later one with the same id replaces it); shapes outside go to the image in document order; shapes in definitions go nowhere.",
 ["inputs"], "every order of titles, descriptions, masks, definitions, groups and shapes, with text anywhere",
 "The tests check one title.",
 ["svg.go", "svg_elements.go", "parse.go", "mask.go"], "token loop: character data, end elements; maskF, titleF, descF, flushPath",
 tech=SK + "text, masks, view box and paths compared",
 note=SKN)
prop("C21", "Colours: all names, hexadecimal and rgb() forms",
 "Every colour of the SVG specification is understood by its name in any case, as #rgb and #rrggbb in any case, and as rgb() with integers or percentages (clamped to 0-255, 100% is 255, rounding down), with white space around the parts; none switches the paint off; plain colours are opaque. This holds for fill, stroke and stop-color, as attribute and in style attributes. Anything else (wrong number of digits or parts, no digits, unknown names, the empty value) is an error in every error mode.",
 ["inputs"], "all 147 names, representative hexadecimal and rgb() values, all places a colour may occur",
 "The tests parse icons in black.",
 ["patterns.go", "parse.go", "svg_elements.go"], "parseSVGColor, parseSVGColorNum, parseColorValue",
 tech=SK + "exhaustive over the names, enumerated values for the numeric forms; compared with the table of the CSS specification",
 note="The names are exhaustive; numeric forms are enumerated constants." + TB)

prop("C26", "Render options: target rectangle and opacity",
 "Without options an image is drawn with opacity 1 and the identity as target transform. Target(x, y, w, h) maps the view box of the image exactly onto that rectangle (each axis scaled by itself, the corner of the view box to x, y), Opacity(o) scales every paint by o. Options combine in any order, and of several options of the same kind the last one counts; drawing with any renderer uses exactly these values.",
 ["inputs", "configurations"], "every sequence of options (enumerated up to length 4, 7 in the thorough tier), all numbers, every view box with a size",
 "No test renders or calls Options.",
 ["renderer/options.go", "matrix.go", "renderer/draw2d/draw.go", "renderer/gg/draw.go", "renderer/rasterx/draw.go"], "Options, Target, Opacity and their use in Draw",
 tech=AI + " of renderer.Options and Draw with symbolic numbers; equality of rational functions",
 note="All numbers are symbols; option lists are enumerated." + TB)
prop("C27", "The gg renderer draws paths through their masks",
 "With the gg renderer a path that names masks is painted through the one it names last: the clip mask in force when it is filled and stroked shows exactly the paths of that mask, in order, placed by the same matrix as the masked path, with their own paints, opacities, rules and strokes (the opacity option does not apply to them), and masked by their own masks, on a context of the same size. A path without masks, or naming one that does not exist, is painted without a clip, whatever was drawn before. Masks that refer to themselves, directly or through others, make Draw return an error.",
 ["inputs", "histories"], "every arrangement of masked and unmasked paths and of masks (enumerated: up to three paths, three masks and three levels of nesting), all numbers",
 "No test renders, and a leaking clip needs two paths in a particular order.",
 ["renderer/gg/draw.go", "mask.go"], "drawTransformed, getMask",
 tech=AI + " of Draw with symbolic numbers; the contexts of masks replayed in a graphics-state model",
 note="Coordinates, matrices, colours and opacities are symbols; arrangements of paths and masks are enumerated." + TB)

prop("C22", "Numbers in attributes are read to the nearest float64",
 "Every decimal numeral of the SVG grammar, with exponent, is read as the nearest float64, and only such numerals are accepted in path data, points and transforms.",
 ["inputs"], "every numeral", "The numerals of a few icons are sampled.",
 ["parse_path.go", "units.go"], "getPoints, readFloat, parseUnit", claimed=False,
 na="Depends on the digits of a string of any length (a runtime quantity) and on strconv; the tokeniser is also known to take liberties (it skips unknown characters, and 'E' starts a command), so a sound static argument for the full grammar does not exist for this code. The separators the code does honour are covered by C16.")
prop("C23", "Arcs and ellipses are approximated to a fraction of a pixel",
 "The curves that stand for arcs and ellipses deviate from the exact ellipse by less than 1/64 of a pixel for all radii.",
 ["inputs"], "every radius, rotation and angle", "No test measures it.",
 ["shapes.go"], "number of curve segments per arc", claimed=False,
 na="The error is a function of runtime radii, trigonometric functions and floating point rounding; bounding it needs interval or symbolic error analysis of transcendental functions, not the static analysis studied here. C13 and C16 check the curves against the ellipse at enumerated or sampled parameters with a relative tolerance.")
prop("C24", "The renderers produce the same pixels",
 "draw2d, gg and rasterx render the same image to the same pixels up to antialiasing.",
 ["inputs", "configurations"], "every image", "No test renders.",
 DRAW, "renderers and the graphics libraries behind them", claimed=False,
 na="Pixels are produced by third-party rasterizers outside the repository; what reaches them is decided by C09, C10 and C11.")
prop("C25", "Documents in any declared character set are decoded",
 "A document in any character set declared in its XML declaration is parsed as if it were UTF-8.",
 ["inputs"], "every character set known to x/net/html/charset", "The icons of the tests are UTF-8.",
 ["svg.go"], "CharsetReader of the decoder", claimed=False,
 na="The decoding is done by encoding/xml and x/net/html/charset at run time; in this repository it is one assignment, and its effect cannot be decided from the repository's source.")
