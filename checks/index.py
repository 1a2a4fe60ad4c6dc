import c_flow
import c_prop
import c_draw
import c_support
import c_ps
import c_det
import c_geo
import c_stl
import c_syntax
import c_own
import c_scan, c_place, c_quote, c_crash, c_mesh, c_index, c_point, c_value
import c_parse

CHECKS = {
    "C01": c_flow.c01,
    "C02": c_flow.c02,
    "C03": c_flow.c03,
    "C04": c_flow.c04,
    "C05": c_flow.c05,
    "C06": c_flow.c06,
    "C07": c_prop.c07,
    "C08": c_prop.c08,
    "C09": c_prop.c09,
    "C10": c_prop.c10,
    "C11": c_prop.c11,
    "C12": c_prop.c12,
    "C13": c_draw.c13,
    "C14": c_draw.c14,
    "C15": c_draw.c15,
    "C41": c_value.c41,
    "C47": c_value.c47,
    "C45": c_value.c45,
    "C46": c_value.c46,
    "C43": c_draw.c43,
    "C16": c_flow.c16,
    "C17": c_ps.c17,
    "C18": c_ps.c18,
    "C19": c_ps.c19,
    "C20": c_flow.c20,
    "C21": c_det.c21,
    "C22": c_stl.c22,
    "C23": c_stl.c23,
    "C44": c_stl.c44,
    "C24": c_index.c24,
    "C25": c_mesh.c25,
    "C26": c_syntax.c26,
    "C27": c_parse.c27,
    "C28": c_parse.c28,
    "C29": c_own.c29,
    "C30": c_scan.c30,
    "C31": c_place.c31,
    "C32": c_quote.c32,
    "C33": c_geo.c33,
    "C34": c_geo.c34,
    "C35": c_geo.c35,
    "C36": c_support.c36,
    "C37": c_flow.c37,
    "C38": c_point.c38,
    "C39": c_crash.c39,
}

FLOW = "path-sensitive dataflow / abstract interpretation over the exported clang AST"
NOTE = ("every path of the named functions is followed (calls inlined or replaced by checked contracts, loops widened to a fixpoint); "
        "library functions are modelled by hand; constructs without a rule are listed as undecided, not as violations")
TECHNIQUES = {}
for _k in CHECKS:
    TECHNIQUES[_k] = (FLOW, NOTE)


def tech(k, t, n=NOTE):
    TECHNIQUES[k] = (t, n)


tech("C01", "typestate dataflow on the output stream and stage results")
tech("C02", "effect-order analysis of ScriptToPS")
tech("C03", "sticky-error typestate, path-sensitive, loops to fixpoint")
tech("C04", "must-report typestate on failure paths")
tech("C05", "dataflow over the loop summaries of LoadFiles")
tech("C06", "open-event sequence analysis of LoadFiles")
tech("C16", "loop-summary dataflow of GeneratePages and RenderPages")
tech("C17", "character-wise transducer extraction and PostScript template scan")
tech("C18", "character-wise transducer extraction and PostScript template scan")
tech("C19", "abstract interpretation of the emitted PostScript templates")
tech("C20", "effect-sequence analysis against the document structure")
tech("C21", "call-graph reachability of nondeterminism sources and flag-conditioned information flow")
tech("C22", "regular-language inclusion of the line patterns, path facts at every exit")
tech("C23", "typestate automaton over the loop summary (ghost state of the current facet)")
tech("C44", "polynomial identity checking over the paths that store a facet")
tech("C26", "product of the scanner tables with the documented automaton over all bytes, path outcomes of the actions")
tech("C27", "LALR tables and grammars compared as automata; path facts of the actions")
tech("C28", "attribute evaluation of the grammar actions over symbolic heaps, per production")
tech("C29", "ownership typestate over the paths of every grammar and scanner action and of the generated discard function")
tech("C31", "provenance analysis of places from scanner to diagnostic, over symbolic runs of the parser actions, the scanner rules and every reporting step")
tech("C32", "transducer equivalence of the literal decoder, from the symbolic paths of its loop, with the language")
tech("C38", "path and value facts at the exits of the point functions; loop summaries of the searches judged turn by turn; polynomial identity of the fitted rows")
tech("C39", "path facts of the number rules under overflow scenarios, abort paths of actions, call-graph reachability of throwing conversions")
tech("C24", "loop summaries judged turn by turn (entering, setting aside, filling the table); typestate changed/indexed; finite evaluation of the form of an edge over the relative positions of its ends")
tech("C25", "typestate of the floating point environment over every path, interval analysis of array indices with loop trip counts")
tech("C30", "typestate of the scanner handle over every path of Parse")
tech("C33", "constant folding over the enumerated paths of the lookup")
tech("C34", "relational abstraction of the comparison, exhaustive finite-model check")
tech("C35", "polynomial identity checking modulo sin^2+cos^2=1")
tech("C36", "path-sensitive string dataflow against the documented format")
tech("C37", "write-effect (ownership) analysis")
tech("C07", "path facts about the property map at every successful exit")
tech("C08", "duplicate-key typestate on the property map")
tech("C09", "type-test facts at every successful exit")
tech("C10", "presence facts at every successful exit")
tech("C11", "value-dependence (information flow) analysis of the drawn output")
tech("C12", "provenance dataflow of printf formats")
tech("C13", "effect analysis of the page at every exit")
tech("C14", "algebraic normal forms of the stored coordinates, loops to fixpoint")
tech("C15", "context dataflow compared as algebraic normal forms")
tech("C41", "value provenance and algebraic normal forms (polynomials modulo |v|^2 = v.v) of the number each label is formatted from, on every successful path")
tech("C45", "definedness analysis of every quotient, root and inverse cosine in the drawn numbers, discharged by path facts")
tech("C46", "algebraic normal forms of the drawn coordinates compared with the places of the features, on every successful path")
tech("C47", "loop summaries of the extent judged turn by turn: each corner is folded into each of the four bounds")
tech("C43", "interval facts and algebraic normal form of the scale")
