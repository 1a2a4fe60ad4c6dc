#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

S = "stl-to-ps/"
prop("C01", "Exit status tells the truth",
     "The program exits with status 0 only if the script was parsed, every model it loads was read, every page was generated, and the PostScript was completely written to the output file and the file closed without error. If all of that succeeded the exit status is 0; a missing script or output option is never a success.",
     ["inputs", "fault_sequences"], "every script, model file, command line, and every I/O failure on the output",
     "The unit tests never call main, and the binary tests cover a handful of bad scripts and no I/O failure.",
     [S+"stl-to-ps-main.cc", S+"stl-to-ps.cc"],
     [("main returns ret ? 0 : 1", S+"stl-to-ps-main.cc main"), ("error returns of the stages", S+"stl-to-ps.cc ScriptToPS")])
prop("C02", "A failed script produces no PostScript",
     "Converting a script writes nothing to the output stream unless parsing, loading every model and generating every page have all succeeded. When all of them succeed, the whole document is rendered exactly once, from the pages that were generated, and the conversion reports success.",
     ["inputs"], "every script and every outcome of each stage",
     "Tests only look at one failing parse and one succeeding script; nothing checks that a failing page or model leaves the output untouched.",
     [S+"stl-to-ps.cc"], [("early returns before RenderPages", S+"stl-to-ps.cc ScriptToPS")])
prop("C03", "A reported error always fails the run",
     "Whenever loading a model, generating a page, or evaluating a draw, text, dimension or point reports an error diagnostic, that step and every step above it return failure. No reported problem is overwritten by a later success.",
     ["inputs"], "every script; every combination and order of good and bad models, pages, draws, dimensions and properties",
     "Tests sample single-error scripts; the guarantee is about every position of the bad item among good ones and every diagnostic in the code.",
     [S+"stl-to-ps.cc", S+"ast.cc", S+"ast.h"],
     [("bool ok accumulation", S+"stl-to-ps.cc LoadFiles, GeneratePages, Flatten, AddDims, operator()"), ("early return false", S+"ast.cc PointFunc")])
prop("C04", "No failure is silent",
     "Whenever loading the models, generating the pages, or evaluating a draw, text, dimension or point returns failure, at least one error diagnostic has been written to standard error for it.",
     ["inputs"], "every script and model set on which a step fails",
     "Tests assert return values of failing calls, not that something was reported, and sample few failures.",
     [S+"stl-to-ps.cc", S+"ast.cc"],
     [("SYM_ERROR before each return false", S+"stl-to-ps.cc, "+S+"ast.cc")])
prop("C05", "Loading binds every declared model to its own file",
     "When loading succeeds, every model declared in the script is present under its declared name with a successfully parsed mesh read from its declared source, and nothing else is present. A name declared twice, a file that cannot be opened and a file that cannot be parsed each make loading fail; a failed declaration does not stop later ones from being examined.",
     ["inputs", "fault_sequences"], "every list of model declarations and every outcome of opening and parsing each file",
     "Tests load zero or one model from fixed paths.",
     [S+"stl-to-ps.cc"], [("LoadFiles loop", S+"stl-to-ps.cc LoadFiles")])
prop("C06", "Model files are searched for in the documented order",
     "An absolute model path (starting with '/') is opened as it is. Any other path is tried first relative to the current directory and then under each directory of the comma-separated load path, in order, and the first file that opens is the one that is read.",
     ["inputs", "configurations"], "every model path and every value of the load-path flag",
     "The search order depends on flag values and the file system, which no test varies.",
     [S+"stl-to-ps.cc"], [("load_paths, model.open loop", S+"stl-to-ps.cc LoadFiles")])
prop("C07", "Unknown properties are rejected",
     "A page, draw, text, angle, dim, dia or rad that carries any property outside the set that kind of item accepts makes generation fail with a diagnostic; it is never silently ignored. The accepted sets are: page name; draw scale, view, @; text @; angle at, apex, from_dir, from_point, to_dir, to_point, fmt; dim at, dir, from, to, fmt; dia and rad at, dir, center, fmt.",
     ["inputs"], "every property list of every kind of item",
     "Tests try one unknown name per kind; the property is about all names, alone and mixed with valid ones.",
     [S+"stl-to-ps.cc"], [("Take removes known keys, seen.empty() afterwards", S+"stl-to-ps.cc")])
prop("C08", "Repeated properties are rejected",
     "A page, draw, text, angle, dim, dia or rad in which the same property name appears more than once makes generation fail with a diagnostic; no repeated property is silently dropped or lets the last one win.",
     ["inputs"], "every property list of every kind of item, at any position of the repeat",
     "Tests repeat one name once for some kinds.",
     [S+"stl-to-ps.cc"], [("Flatten via map emplace", S+"stl-to-ps.cc Flatten")])
prop("C09", "Wrongly typed property values are rejected",
     "A property whose value has a type the property does not accept makes generation fail with a diagnostic and is never ignored, reinterpreted, or replaced by a default. Accepted types: page name and every fmt a string; scale a ratio; view a string or a two-number location; every point-valued property of a dimension a point.",
     ["inputs"], "every property of every kind of item paired with every value type of the grammar",
     "Tests sample a few property/type pairs.",
     [S+"stl-to-ps.cc", S+"ast.h"], [("Meta::As / Meta::get checks", S+"stl-to-ps.cc, "+S+"ast.h")])
prop("C10", "Incomplete or conflicting dimensions are rejected",
     "A dim needs at, dir, from and to; a dia and a rad need at, dir and center; an angle needs at, apex, exactly one of from_dir and from_point, and exactly one of to_dir and to_point. If a needed one is missing, or both of an exclusive pair are given, generation fails with a diagnostic and that dimension draws nothing.",
     ["inputs"], "every subset of the properties of every dimension kind",
     "There are dozens of subsets per kind; tests try a few.",
     [S+"stl-to-ps.cc"], [("Missing/Both checks", S+"stl-to-ps.cc operator()(Angle), operator()(Dim), GetCenter")])
prop("C11", "Every accepted property takes effect",
     "Each property an item accepts, when present and valid, determines the part of the result it names: the page title is the page's name, and the drawn output of a draw, text or dimension depends on each of its scale, view, @, at, apex, dir, from, to, center, from/to direction or point, and fmt. No accepted property is read and then discarded.",
     ["inputs"], "every item kind and every accepted property",
     "Tests compare whole outputs for a few scripts only.",
     [S+"stl-to-ps.cc"], [("uses of the values taken from the property map", S+"stl-to-ps.cc")])
prop("C12", "User number formats are validated and used",
     "The fmt given to a dimension is used as a printf format only after it has been validated to take exactly one floating-point argument with an f conversion; anything else makes generation fail with a diagnostic. When a valid fmt is given the number in the label is formatted with it, and otherwise with the default (%.1f for angles, %.3f for dim, dia and rad).",
     ["inputs"], "every fmt string on every dimension kind",
     "Format strings form an unbounded input space; tests try two.",
     [S+"stl-to-ps.cc"], [("absl::ParsedFormat<'f'>::New", S+"stl-to-ps.cc")])
prop("C13", "Every accepted dimension is drawn",
     "Evaluating an angle, dim, dia or rad successfully adds at least one label and at least one line to the current page, an angle also its arc, a dia a label marked with the diameter sign and a rad one marked with R. A dimension that fails adds nothing.",
     ["inputs"], "every dimension that is accepted or rejected",
     "Tests check counts for a few literal dimensions.",
     [S+"stl-to-ps.cc"], [("AddText/AddLines/AddArcs calls", S+"stl-to-ps.cc")])
prop("C14", "All drawn geometry gets the same page transform",
     "Every line end, arc centre and label position that a draw contributes is placed on the page at its model coordinate times the draw's scale plus the draw's offset, applied exactly once and in that order; arc radii are scaled by the same scale without the offset and arc angles are unchanged. Items already on the page are kept and every item passed in is added, in order.",
     ["inputs"], "every list of lines, arcs and labels and every scale and offset",
     "Tests use scale 1 or single elements.",
     [S+"stl-to-ps.cc"], [("AddLines, AddArcs, AddText", S+"stl-to-ps.cc")],
     state=[("proj", "scale and offset of the draw being rendered", S+"stl-to-ps-impl.h")])
prop("C15", "A draw's model and dimensions share one context",
     "For each draw the projection of the model and the evaluation of all of its dimensions use the same view rotation, the same scale and the same offset, taken from that draw's own properties or the defaults (view Z+, scale 1:1) and its own model; the model's outline is centred @ inches from the centre of the page, or on the page's origin when the draw has no @. Nothing carries over from draws rendered earlier, and the model looked up is the one the draw names, an unknown name being an error.",
     ["inputs", "histories"], "every sequence of draws on every sequence of pages",
     "Tests render one draw at a time, so state left over from an earlier draw is never observable.",
     [S+"stl-to-ps.cc"], [("operator()(Draw) sets proj, AddDims sets points_ and rotation_", S+"stl-to-ps.cc")],
     state=[("proj, points_, rotation_", "per-draw working set", S+"stl-to-ps-impl.h DrawToPage")])
prop("C16", "Pages come out once each, in order, with their own content",
     "Each page of the script yields exactly one output page, in script order, holding only what that page's own draws and texts add plus its title; pages are numbered 1 to N consecutively, and every page is announced with the total N. Every draw and text of the page is evaluated exactly once and in order, even after an earlier one failed.",
     ["inputs"], "every number of pages and draws",
     "Tests use zero to two pages.",
     [S+"stl-to-ps.cc"], [("GeneratePages and RenderPages loops", S+"stl-to-ps.cc")])
prop("C17", "Text cannot break out of its PostScript string",
     "Every character of user-controlled text that is printed (titles, text blocks, labels including their number format) appears inside a PostScript string literal with '(' , ')' and '\\' escaped by a backslash and every other character unchanged. Only text the program itself composed as PostScript may be emitted unescaped.",
     ["inputs"], "every string over all byte values",
     "Escaping must hold for every string and position; tests try a few.",
     [S+"ps.cc", S+"stl-to-ps.cc"], [("escaping loop in TextToPs", S+"ps.cc TextToPs"), ("raw flag", S+"stl-to-ps.cc RenderDia")])
prop("C18", "Header comments cannot be broken out of",
     "The document name given on the command line and the script's path appear only inside a PostScript comment of the document header, whatever characters they contain; no character of them can end the comment and be executed as PostScript.",
     ["inputs", "configurations"], "every --name value and every script path",
     "No test sets the name flag or uses an unusual path.",
     [S+"ps.cc"], [("DocumentHeader comment block", S+"ps.cc DocumentHeader")])
prop("C19", "Emitted PostScript is well formed",
     "Every fragment of PostScript the program writes is lexically complete and gives each operator the operands it needs, in number and order: lines are drawn from their first to their second point, arcs as centre, radius, start and end angle in degrees, text at its position. Each fragment leaves the operand stack as it found it, and each newline-terminated fragment starts its own path and paints or shows it.",
     ["inputs"], "every list of lines, arcs and texts, including empty ones",
     "Tests compare a few literal outputs.",
     [S+"ps.cc"], [("Substitute templates", S+"ps.cc")])
prop("C20", "Document structure is complete",
     "The output is the document header exactly once, then for every page the page header, then that page's text, arcs and lines, then exactly one showpage; nothing is written outside this structure. The procedure used to centre text is defined in the header before any page uses it, and exactly the centred texts use it.",
     ["inputs"], "every list of pages",
     "Tests check an empty list and one page.",
     [S+"stl-to-ps.cc", S+"ps.cc"], [("RenderPages", S+"stl-to-ps.cc"), ("DocumentHeader/PageHeader/PageFooter", S+"ps.cc")])
prop("C21", "Output is deterministic apart from the time stamp",
     "The bytes written depend only on the script, the models and the flags, except for the time stamp; the same time is used throughout one run. With the timestamp flag off no time appears on the pages, with page numbering off no page number appears, and each flag that is on adds its part.",
     ["inputs", "configurations", "histories"], "every script and every flag setting, repeated in one process",
     "Tests run with one flag setting each and never compare two runs.",
     [S+"ps.cc", S+"stl-to-ps.cc", S+"stl.cc"], [("Now() cached in a static", S+"ps.cc Now"), ("flag tests", S+"ps.cc PageHeader")])
prop("C22", "A model file is read completely or rejected",
     "Reading an STL model yields a mesh only if every line of the file was recognised and the stream was read to its end without an I/O error; otherwise no mesh is returned. The recognised lines are solid or endsolid alone or followed by a space and any text, outer loop, endloop, facet normal with three numbers, endfacet, vertex with three numbers; lines may be indented with spaces and (but for the text of solid) end in spaces, and a number is written with digits, '.', '-' and 'e'.",
     ["inputs", "fault_sequences"], "every file content and every read failure",
     "Tests read a few small well-formed and one malformed file, and no failing stream.",
     [S+"stl.cc"], [("unknown line returns nullptr", S+"stl.cc STLFile::Make")])
prop("C23", "Every facet is built from its own three vertices",
     "Each facet stored by the STL reader is built from exactly the three vertices read since that facet began and from that facet's own normal; a facet with any other number of vertices makes the reader reject the file, except that a facet whose normal is missing or zero is left out. No vertex or normal of one facet is ever used for another, and no vertex is read out of bounds.",
     ["inputs"], "every sequence of facet, vertex and endfacet lines, including malformed ones",
     "Tests feed well-formed triangles only.",
     [S+"stl.cc"], [("points.clear, norm reset", S+"stl.cc STLFile::Make"), ("Facet constructor", S+"stl.cc Facet::Facet")])
prop("C24", "A mesh's edge index always matches its facets",
     "Every mesh that is returned by reading or rotating has had its edge list and its facet-to-edge table rebuilt after the last change to its facets, and each edge is looked up under the same orientation-independent form under which it was entered. Every edge of every facet is in the list once and the table holds its position for each facet that has it; edges set aside from drawing are exactly those shared by two different facets lying nearly in one plane. Rotating transforms the normal and all three corners of every facet by the same matrix, drops exactly the facets that then do not face the viewer, and leaves the original mesh unchanged.",
     ["inputs", "histories"], "every mesh and every sequence of rotations",
     "Tests observe only the lines of tiny meshes.",
     [S+"stl.cc"], [("Index() after mutation", S+"stl.cc Make, Rotate"), ("AddEdge/UpdateEdge canonical edge", S+"stl.cc Index")])
prop("C25", "Line generation stays in bounds and restores the FP state",
     "While hidden parts of an edge are collected, the fixed-size work area is never overrun, whatever the mesh; and on every way out of line generation the floating-point environment of the caller is restored to what it was on entry.",
     ["inputs"], "every mesh",
     "Overruns and leaked floating-point state need particular meshes and are invisible to output comparisons.",
     [S+"stl.cc"], [("hidden_points[5], idx", S+"stl.cc ToLines"), ("feholdexcept/fesetenv", S+"stl.cc ToLines")])
prop("C26", "The script's lexical language is exactly the documented one",
     "Scripts are split, longest match first, into: the punctuation {}[]()=;:,@; the keywords angle dia dim draw load page rad text; identifiers [a-zA-Z_][a-zA-Z0-9_]*; numbers with optional sign and optional fraction; double-quoted strings on one line with backslash escapes for \\ \" ' ? and n; blanks and // comments, which are skipped. Every other byte is reported and fails the parse, and each token delivers its own text as its value.",
     ["inputs"], "every byte string",
     "A finite set of example scripts cannot pin a regular language.",
     [S+"lexer.l"], [("flex rules", S+"lexer.l")])
prop("C27", "The script grammar is unambiguous and exactly as documented",
     "The grammar has no conflicts, so every token sequence has at most one reading. It accepts exactly the sequences of load statements and pages, pages made of properties, draws and texts, draws made of properties and dimensions, with every property a name and value (string, point, number, location or ratio) or an @ location; every other token sequence is rejected.",
     ["inputs"], "every token sequence",
     "Test scripts are a handful of sentences.",
     [S+"parser.y"], [("bison rules", S+"parser.y")])
prop("C28", "The parser builds exactly what the script says",
     "Each accepted construct becomes exactly one node of the matching kind, carrying exactly the name, text, values and parts written for it, and appended after its predecessors so that script order is kept. Nothing written in an accepted script is dropped, duplicated, reordered or attached to another node.",
     ["inputs"], "every accepted script",
     "Tests never inspect the parsed document.",
     [S+"parser.y", S+"ast.h", S+"ast.cc"], [("semantic actions", S+"parser.y"), ("Document::Add, node constructors", S+"ast.h, "+S+"ast.cc")])
prop("C29", "Parsing neither leaks nor double-frees",
     "Every object created while parsing is handed on exactly once: on success it is owned by the resulting document, and when the parser discards symbols after an error it is deleted exactly once. The caller's document and plain numbers are never deleted.",
     ["inputs"], "every token sequence, accepted or rejected at any point",
     "Leaks and double frees depend on where the error occurs and tests run without leak detection.",
     [S+"parser.y", S+"ast.h"], [("%destructor", S+"parser.y"), ("WrapUnique/Take in actions", S+"parser.y, "+S+"ast.h")])
prop("C30", "Every parse starts and ends with a clean scanner",
     "Parsing scans exactly the bytes of the given script with a fresh scanner that starts at line 1, column 0 with the script's own file name, and on every way out releases the scanner and its buffer exactly once. The result is the parser's own result.",
     ["inputs", "histories"], "every script and every sequence of parses in a process",
     "Tests parse a few scripts once.",
     [S+"parser.cc"], [("Parse", S+"parser.cc Parse")])
prop("C31", "Diagnostics name the place of the offending item",
     "Every diagnostic about an item of the script names that item's file name and line; nodes take their location from their own first tokens, and the location kept in a node never changes afterwards. Line numbers follow the newlines of the script.",
     ["inputs"], "every diagnostic on every script layout",
     "Binary tests check the line for a few single-error scripts.",
     [S+"ast.h", S+"parser.y", S+"lexer.l", S+"stl-to-ps.cc"], [("Loc, NodeI, SYM_ERROR", S+"ast.h"), ("YY_USER_ACTION", S+"lexer.l"), ("@N in actions", S+"parser.y")])
prop("C32", "String literals decode exactly",
     "A string literal denotes the characters between its quotes with \\n replaced by a newline and a backslash before any other character removed; nothing else is changed, added or lost. Adjacent literals concatenate in order.",
     ["inputs"], "every string literal over all byte values",
     "Tests decode a few literals.",
     [S+"ast.cc", S+"lexer.l", S+"parser.y"], [("NewQuote", S+"ast.cc NewQuote"), ("string_lit", S+"parser.y")])
prop("C33", "The six named views are the six proper axis views",
     "Exactly the names X+, X-, Y+, Y-, Z+ and Z- are accepted as views; each maps to a proper rotation (orthonormal, determinant +1) that turns the named axis direction to face the viewer (+z), and the six are pairwise different. Any other name is rejected and leaves the caller's matrix alone.",
     ["inputs"], "every view name",
     "Tests print some of the matrices; none checks names outside the table, properness or distinctness.",
     [S+"geo.h", S+"ast.cc"], [("geo::matrix constants", S+"geo.h"), ("kViews", S+"ast.cc GetMatrixByName")])
prop("C34", "Point and line orderings are strict total orders",
     "The orderings used to keep sets of points, edges and lines are strict total orders on values without NaN: irreflexive, asymmetric, transitive, and two values are unordered exactly when all of their coordinates are equal. Line equality agrees with this.",
     ["inputs"], "every pair and triple of points, edges and lines",
     "An ordering bug shows only for particular coordinate patterns; tests compare a few.",
     [S+"geo.h", S+"stl.cc"], [("Order, PointOrder, operator<, operator==", S+"geo.h"), ("EdgeOrder", S+"stl.cc")])
prop("C35", "A view given by angles is a proper rotation",
     "For every pair of angles the view matrix built from them is orthonormal with determinant +1, the identity for zero angles, and a location of the script is interpreted as (rotation, elevation) in degrees.",
     ["inputs"], "all real angle pairs",
     "Tests evaluate a few angles.",
     [S+"geo.cc", S+"ast.cc"], [("Rotate", S+"geo.cc"), ("GetMatrixByAng", S+"ast.cc")])
prop("C36", "Syntax diagnostics are one faithful line on stderr",
     "Reporting a syntax error prints exactly one newline-terminated line to standard error and nothing anywhere else: the word error, the file name (or ?? when there is none), the position, and the message verbatim. When the position begins and ends on one line it has the form line:[begin column,end column], otherwise line:column to line:column, with the begin and end values in that order.",
     ["inputs"], "every file name including none, every position, every message text including % characters",
     "The only test calls it twice and looks at nothing.",
     [S+"parser_support.cc"], [("error()", S+"parser_support.cc error")])
prop("C37", "Rendering does not change the parsed script",
     "Loading, generating and rendering leave the parsed document as it was, so converting the same document twice gives the same result.",
     ["histories", "inputs"], "every document and every number of conversions",
     "No test renders one document twice.",
     [S+"stl-to-ps.cc", S+"ast.h"], [("GetRotated, Point::Rotate", S+"stl-to-ps.cc, "+S+"ast.h")])
prop("C38", "Point functions return a definite point or fail",
     "Evaluating a point succeeds only with every coordinate of its result assigned: a literal yields its own coordinates under the view rotation; near yields the target when that is itself a vertex and otherwise the vertex nearest to it in the plane of the page; center yields the centre of a circle fitted to the vertices about as far from it as the three distinct vertices nearest to its argument, and fails on fewer than three points; an unknown function name or a failing argument fails the whole. Circle fitting takes every point given into account and never succeeds on fewer than three points or with a centre or radius that is not finite.",
     ["inputs"], "every nesting of point functions over every point set",
     "Tests use a few point sets.",
     [S+"ast.cc", S+"ast.h", S+"center.cc"], [("PointFunc::Invoke, Near, Center", S+"ast.cc"), ("FindCircle", S+"center.cc")])
prop("C39", "Syntactically odd input cannot crash the reader",
     "No byte sequence given as a script makes parsing end by an uncaught exception, and none given as a model makes reading it end so: numbers too large to represent and malformed tokens are reported as errors and fail the parse, and what is not a number is rejected with the model.",
     ["inputs"], "every byte string given as a script or as a model",
     "Tests feed small well-formed numbers.",
     [S+"lexer.l", S+"ast.cc", S+"stl.cc"], [("number actions", S+"lexer.l"), ("STLFile::Make", S+"stl.cc")])
# declined
prop("C40", "Hidden lines are removed correctly",
     "The lines drawn for a mesh are exactly the visible parts of its feature edges under the chosen view.",
     ["inputs"], "every mesh and view", "Tests compare a few meshes.",
     [S+"stl.cc"], [("ToLines, EdgeCrosses, GenerateLines", S+"stl.cc")])
prop("C41", "The number a dimension prints is the one it measures",
     "In real arithmetic (up to rounding), the number a dim prints is the distance of its points 'from' and 'to' along 'dir'; an angle prints the angle between its two directions in degrees; a rad prints the radius, and a dia twice the radius, of the circle fitted to the vertices about as far from the centre as the three vertices nearest to its 'center'. The number is in model units whatever the scale, never negative, and the same whichever of its two features is named first.",
     ["inputs"], "every mesh, view, scale and dimension", "Tests check a few literal values.",
     [S+"stl-to-ps.cc"], [("operator()(Dim/Angle), GetCenter, RenderDia, RenderRad", S+"stl-to-ps.cc")])
prop("C42", "No mesh can abort the renderer",
     "No well-formed mesh makes an internal consistency check fail during line generation.",
     ["inputs"], "every mesh", "Tests use a few meshes.",
     [S+"stl.cc"], [("CHECKs in ToLines, EdgeCrosses, GenerateLines", S+"stl.cc")])
prop("C43", "Scale is a positive ratio used exactly as written",
     "The scale of a draw is the quotient of the two numbers written, and a ratio that is not finite and positive is rejected with a diagnostic.",
     ["inputs"], "every ratio", "Tests use 1:1 and 1:2.",
     [S+"parser.y", S+"stl-to-ps.cc"], [("Scale action, scale property", S+"parser.y, "+S+"stl-to-ps.cc")])
prop("C44", "The plane of a facet is the one through its corners",
     "The normal stored for a facet read from a model is a unit vector perpendicular to its sides, on the side to which the file's normal points; its three stored corners are the three read, in counterclockwise order seen from that side; and the stored offset is the one with which every corner satisfies the plane equation.",
     ["inputs"], "every facet of every model file",
     "Tests read a few facets whose normals and vertex order already agree.",
     [S+"stl.cc"], [("Facet constructor", S+"stl.cc Facet::Facet")])

prop("C45", "Dimensions draw only finite numbers",
     "As long as the numbers of the script and the mesh are finite and nothing overflows, no coordinate, radius, angle or value that a dimension puts on the page is infinite or not a number: degenerate features (parallel sides, coinciding points, a direction across the page) are either reported or drawn with finite coordinates.",
     ["inputs"], "every dimension, including directions and points that coincide, are parallel or are seen end-on",
     "Tests draw ordinary dimensions; what fails is a quotient by a component that happens to be zero.",
     [S+"stl-to-ps.cc"], [("operator()(Dim/Angle), RenderDia, RenderRad", S+"stl-to-ps.cc")])
prop("C46", "A dimension is drawn where its features are",
     "What a dimension draws is in the right place in the plane of the page: the arrows of a dim end where its two points fall on the line through 'at' along 'dir', each reached by a line from near its point across the dimension; the arc of an angle is centred at 'apex', passes at the distance of 'at', runs counterclockwise over the sector smaller than a straight angle from one side to the other, and each side has a line along it; the arrow of a rad, and the two of a dia, end on the fitted circle in the direction 'dir' from its centre (and opposite), and are connected to 'at'; the label is at 'at' (for rad and dia, moved sideways by its own width only).",
     ["inputs"], "every mesh, view, scale and dimension", "Tests compare the picture of one example of each kind with text recorded from a run.",
     [S+"stl-to-ps.cc", S+"geo.h"], [("operator()(Dim/Angle), RenderDia, RenderRad", S+"stl-to-ps.cc"), ("Arc", S+"geo.h")])
prop("C47", "The extent of a model is its bounding box",
     "The extent a draw is centred by is the smallest rectangle of the page plane that contains every corner of every facet the projected model then consists of (those facing away have been set aside), and the origin when there is none.",
     ["inputs"], "every model", "Tests look at one model, whose extremes are at particular corners.",
     [S+"stl.cc"], [("STLFile::Limits", S+"stl.cc")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
