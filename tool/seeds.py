"""The planted bugs: written to /verif/seeded by mkseed.py."""
SEEDS = []
S = "stl-to-ps.cc"


def seed(id, prop, title, edits, needs, breaks, demo, **files):
    SEEDS.append(dict(id=id, property=prop, title=title, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files.get("files", {})))


seed("C03-later-dim-hides-error", "C03", "a bad dimension followed by a good one must fail the run",
     [(S, "  for (const auto& dim : dims) ok &= dim->VisitNode(this);\n", "  for (const auto& dim : dims) ok = dim->VisitNode(this);\n")],
     "a draw with a rejected dimension that is followed by an accepted one",
     "the result of the last dimension replaces the failures of earlier ones, so a run that reported an error succeeds",
     '''
build
box "$W/m.stl" 1 1 1
cat > "$W/bad.txt" << 'X'
load M = "m.stl";
page { draw M { @[0,0];
  dim(from=[0,0,0], to=[1,0,0], at=[0,1,0], dir=[1,0,0], typo="x");
  dim(from=[0,0,0], to=[1,0,0], at=[0,1,0], dir=[1,0,0]);
} }
X
grep -v typo "$W/bad.txt" > "$W/good.txt"
run good.txt good.ps || fail "the good script is rejected: $(cat "$W/err")"
run bad.txt bad.ps && fail "a script with a rejected dimension succeeds"
''')

seed("C06-subdirectory-as-absolute", "C06", "a model in a subdirectory is searched for along the load path",
     [(S, "if (file.find('/') == 0) {", "if (file.find('/') != std::string::npos) {")],
     "a model path with a directory part that is only found under --load_path",
     "a relative path with a directory part is opened as it is instead of being searched for",
     '''
build
mkdir -p "$W/lib/sub"
box "$W/lib/sub/m.stl" 1 1 1
echo 'load M = "sub/m.stl"; page { draw M { @[0,0]; } }' > "$W/s.txt"
run s.txt a.ps && fail "found without a load path"
run s.txt a.ps --load_path=nowhere,lib || fail "not found along the load path: $(cat "$W/err")"
''')

seed("C07-extra-property-beside-fmt", "C07", "an unknown property of a rad is rejected, whatever else is given",
     [(S, "  if (!seen->empty()) {\n    SYM_ERROR(rad)", "  if (!seen->empty() && !p_fmt) {\n    SYM_ERROR(rad)")],
     "a rad with both a fmt and a property that does not exist",
     "a rad with an own number format accepts any unknown property silently",
     '''
build
cat > "$W/m.py" << 'X'
import math
n = 24
print("solid s")
for i in range(n):
    a, b = 2 * math.pi * i / n, 2 * math.pi * (i + 1) / n
    p, q = (math.cos(a), math.sin(a)), (math.cos(b), math.sin(b))
    print("facet normal 0 0 1\\nouter loop\\nvertex 0 0 0\\nvertex %.6f %.6f 0\\nvertex %.6f %.6f 0\\nendloop\\nendfacet" % (p + q))
print("endsolid s")
X
python3 "$W/m.py" > "$W/m.stl"
t() { echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; rad(center=[1,0,0], at=[2,1,0], dir=[1,1,0]$1); } }" > "$W/s.txt"; run s.txt a.ps; }
t '' || fail "a plain rad is rejected: $(cat "$W/err")"
t ', fmt="%.1f"' || fail "a rad with a fmt is rejected: $(cat "$W/err")"
t ', color="red"' && fail "an unknown property is accepted"
t ', color="red", fmt="%.1f"' && fail "an unknown property is accepted beside a fmt"
''')

seed("C08-last-one-wins", "C08", "a repeated property is rejected at any position",
     [(S, "    if (!seen->emplace(i->name, i.get()).second) {", "    auto added = seen->emplace(i->name, i.get());\n    if (!added.second && i.get() == inp.back().get() && inp.size() > 2) {\n      added.first->second = i.get();\n    } else if (!added.second) {")],
     "an item with three or more properties whose last one repeats an earlier one",
     "the last property replaces the earlier one instead of being reported",
     '''
build
box "$W/m.stl" 1 1 1
t() { echo "load M = \\"m.stl\\"; page { draw M { $1 } }" > "$W/s.txt"; run s.txt a.ps; }
t '@[0,0]; scale=1:2; view="X+";' || fail "a good draw is rejected: $(cat "$W/err")"
t 'scale=1:2; scale=1:3;' && fail "a repeated scale is accepted"
t 'scale=1:2; scale=1:2; view="X+";' && fail "a repeated scale is accepted"
t 'scale=1:2; view="X+"; scale=1:3;' && fail "a repeated last scale is accepted"
''')

seed("C09-view-type-ignored", "C09", "a view that is neither a name nor a pair of angles is rejected",
     [(S, "    } else if (view->As(&name)) {\n      if (!stl2ps::GetMatrixByName(name, &rotation)) {", "    } else if (!view->get<std::pair<int, int>>()) {\n      if (!view->As(&name) || !stl2ps::GetMatrixByName(name, &rotation)) {"),
      (S, "    } else {\n      SYM_ERROR(*view) << \"Unexpect view type: \" << view->type_name();\n      return false;\n    }\n", "    }\n")],
     "a view given as a ratio (view=30:60)",
     "a view of type ratio is ignored and the default view is used",
     '''
build
box "$W/m.stl" 1 1 1
t() { echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; $1 } }" > "$W/s.txt"; run s.txt a.ps; }
t 'view="Y-";' || fail "a named view is rejected: $(cat "$W/err")"
t 'view=[30,60];' || fail "a view by angles is rejected: $(cat "$W/err")"
t 'view="Q+";' && fail "an unknown name is accepted"
t 'view=7;' && fail "a number is accepted"
t 'view=[1,2,3];' && fail "a point is accepted"
t 'view=30:60;' && fail "a ratio is accepted"
''')

seed("C10-both-directions", "C10", "giving both to_dir and to_point is rejected",
     [(S, "  if (p_to_dir && p_to_point) {", "  if (p_to_dir && p_to_point && !p_from_point) {")],
     "an angle with from_point, to_dir and to_point",
     "an angle whose second arm is given twice is accepted and one of the two is ignored",
     '''
build
box "$W/m.stl" 1 1 1
t() { echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; angle(apex=[0,0,0], at=[1,1,0], $1); } }" > "$W/s.txt"; run s.txt a.ps; }
t 'from_dir=[1,0,0], to_dir=[0,1,0]' || fail "rejected: $(cat "$W/err")"
t 'from_point=[1,0,0], to_point=[0,1,0]' || fail "rejected: $(cat "$W/err")"
t 'from_dir=[1,0,0], to_dir=[0,1,0], to_point=[0,1,0]' && fail "both are accepted"
t 'from_point=[1,0,0], to_dir=[0,1,0], to_point=[0,1,0]' && fail "both are accepted with from_point"
t 'from_dir=[1,0,0], from_point=[1,0,0], to_dir=[0,1,0]' && fail "both are accepted"
''')

seed("C12-format-without-number", "C12", "a number format has to print the number",
     [(S, "    auto user_fmt = absl::ParsedFormat<'f'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt)\n          <<", "    auto user_fmt = absl::ParsedFormat<'f'>::NewAllowIgnored(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt)\n          <<")],
     "an angle whose fmt has no conversion at all",
     "a format that ignores the number is accepted, so the label does not show the angle",
     '''
build
box "$W/m.stl" 1 1 1
t() { echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; angle(apex=[0,0,0], at=[1,1,0], from_dir=[1,0,0], to_dir=[0,1,0]$1); } }" > "$W/s.txt"; run s.txt a.ps; }
t '' || fail "rejected: $(cat "$W/err")"
t ', fmt="%.2f"' || fail "rejected: $(cat "$W/err")"
grep -q '90.00 deg' "$W/a.ps" || fail "the format is not used"
t ', fmt="%d"' && fail "%d is accepted"
t ', fmt="%f %f"' && fail "two conversions are accepted"
t ', fmt="about a right angle"' && fail "a format without a conversion is accepted"
''')

seed("C13-short-dims-unlabelled", "C13", "every accepted dim has a label",
     [(S, "  t.str = absl::StrFormat(fmt, dim_value);\n  t.center = true;\n  AddText({t});\n", "  t.str = absl::StrFormat(fmt, dim_value);\n  t.center = true;\n  if (dim_value * proj.scale > 1) AddText({t});\n")],
     "a dim whose length is less than a point on paper",
     "a dim of a very small feature (or of a feature drawn at a small scale) is accepted but has no label",
     '''
build
box "$W/m.stl" 1 1 1
t() { echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; scale=$1; dim(from=[0,0,0], to=[0.25,0,0], at=[0,1,0], dir=[1,0,0], fmt=\\"<%.2f>\\"); } }" > "$W/s.txt"; run s.txt a.ps || fail "rejected: $(cat "$W/err")"; grep -q '<0.25>' "$W/a.ps" || fail "no label at scale $1"; }
t 1:1
t 1:10
t 1:40
''')

seed("C14-arc-radius-clamped", "C14", "the radius of an arc is scaled like everything else",
     [(S, "    a.r *= proj.scale;\n", "    a.r = std::min<double>(a.r * proj.scale, 792);\n")],
     "an angle whose arc has a radius of more than 11 inches on paper",
     "large arcs are drawn with a radius that does not match the geometry they belong to",
     '''
build
box "$W/m.stl" 1 1 1
t() {
echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; scale=1:$1; angle(apex=[0,0,0], at=[$2,0,0], from_dir=[1,0,0], to_dir=[0,1,0]); } }" > "$W/s.txt"
run s.txt a.ps --notimestamp || fail "rejected: $(cat "$W/err")"
python3 - "$W/a.ps" $1 $2 << 'X' || fail "the arc at distance $2 at scale 1:$1 has the wrong radius"
import re, sys
t = open(sys.argv[1]).read()
arcs = re.findall(r"(\\S+) (\\S+) (\\S+) (\\S+) (\\S+) arcn?\\b", t)
sys.exit(0 if len(arcs) == 1 and abs(float(arcs[0][2]) - 72.0 * float(sys.argv[3]) / float(sys.argv[2])) < .1 else 1)
X
}
t 1 1
t 1 10
t 2 20
t 1 20
''')

seed("C15-default-view-sticks", "C15", "a draw without a view is drawn from above, whatever was drawn before",
     [(S, "  Eigen::Matrix3d rotation = geo::matrix::ZP;\n", "  Eigen::Matrix3d rotation = geo::matrix::ZP;\n  if (!seen.count(\"view\") && !current_page->lines.empty()) rotation = rotation_;\n")],
     "a page on which a draw with a view is followed by one without",
     "the view of the draw before is used for a draw without a view of its own",
     '''
build
box "$W/m.stl" 1 2 3
lines() { grep -c . "$W/$1"; }
echo 'load M = "m.stl"; page { draw M { @[1,1]; } }' > "$W/a.txt"
echo 'load M = "m.stl"; page { draw M { @[-2,-1]; view="X+"; } }' > "$W/b.txt"
echo 'load M = "m.stl"; page { draw M { @[-2,-1]; view="X+"; } draw M { @[1,1]; } }' > "$W/c.txt"
for i in a b c; do run $i.txt $i.ps --notimestamp || fail "$i is rejected: $(cat "$W/err")"; grep -v '^%' "$W/$i.ps" | sort -u > "$W/$i.l"; done
sort -u "$W/a.l" "$W/b.l" > "$W/ab.l"
cmp -s "$W/ab.l" "$W/c.l" || { diff "$W/ab.l" "$W/c.l" | head; fail "two draws on a page are not the two draws"; }
''')

seed("C43-scale-truncated", "C43", "every ratio is used as it is written",
     [(S, "  proj.scale = 72.0 * scales.first / scales.second;", "  proj.scale = 72 * scales.first / scales.second;")],
     "a scale whose second number does not divide 72 times the first",
     "the points per inch are rounded down to a whole number",
     '''
build
box "$W/m.stl" 100 100 100
t() {
echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; scale=$1:$2; } }" > "$W/s.txt"
run s.txt a.ps --notimestamp || fail "rejected: $(cat "$W/err")"
python3 - "$W/a.ps" $1 $2 << 'X' || fail "at $1:$2 the box has the wrong size"
import re, sys
t = open(sys.argv[1]).read()
n = [(float(a), float(b)) for a, b in re.findall(r"(-?[\\d.e+-]+) (-?[\\d.e+-]+) (?:newpath )?(?:moveto|lineto)", t)]
w = 7200.0 * int(sys.argv[2]) / int(sys.argv[3])
x = [p[0] for p in n]
sys.exit(0 if any(abs(abs(a - b) - w) < 1e-3 * w for a in x for b in x) else 1)
X
}
t 1 20
t 1 50
t 1 100
''')

LIB = '#include "stl-to-ps/stl.h"\n#include "stl-to-ps/ast.h"\n#include "stl-to-ps/stl-to-ps.h"\n#include <cfenv>\n#include <fstream>\n#include <iostream>\n#include <sstream>\n'

seed("C01-missing-script-is-empty", "C01", "a script that cannot be read is not a success",
     [("stl-to-ps-main.cc", "  CHECK(in.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_script);", "  if (!in) LOG(ERROR) << \"Failed to open \" << absl::GetFlag(FLAGS_script);")],
     "a --script that names a file that does not exist",
     "the missing script is read as an empty one, and the program succeeds with a drawing without pages",
     '''
build
box "$W/m.stl" 1 1 1
echo 'load M = "m.stl"; page { draw M { @[0,0]; } }' > "$W/s.txt"
run s.txt a.ps || fail "a good script is rejected: $(cat "$W/err")"
run none.txt b.ps && fail "a script that does not exist succeeds"
run s.txt none/b.ps && fail "an output that cannot be written succeeds"
''')

seed("C05-same-file-twice", "C05", "a name is loaded once, whatever it is loaded from",
     [(S, "    if (!added.second) {\n      SYM_ERROR(doc_model)", "    if (!added.second && &doc_model != &doc.models.back()) {\n      SYM_ERROR(doc_model)")],
     "a script whose last load gives a name that was loaded before",
     "the last load silently replaces the model that an earlier one gave the name",
     '''
build
box "$W/m.stl" 1 1 1
box "$W/n.stl" 2 2 2
P='page { draw M { @[0,0]; } }'
t() { echo "$1 $P" > "$W/s.txt"; run s.txt a.ps; }
t 'load M = "m.stl"; load N = "n.stl";' || fail "rejected: $(cat "$W/err")"
t 'load M = "m.stl"; load M = "n.stl"; load N = "n.stl";' && fail "a name is loaded twice"
t 'load M = "m.stl"; load N = "n.stl"; load M = "n.stl";' && fail "a name is loaded twice, last"
''')

seed("C16-numbers-go-on", "C16", "every document starts at page 1",
     [(S, "  int page_number = 0;\n  for (const auto& page : pages) {", "  static int page_number = 0;\n  if (page_number > int(pages.size())) page_number = 0;\n  for (const auto& page : pages) {")],
     "two documents rendered by one process, the second no shorter than the first",
     "the pages of the second document are numbered on from the first one",
     '''
build "$H/twice.cc"
box "$W/m.stl" 1 1 1
cd "$W"
./twice > a.txt || fail "rejected"
grep ' show$' a.txt | grep -o 'page [0-9]* of [0-9]*' | tr '\\n' ';' > n.txt
[ "$(cat n.txt)" = "page 1 of 2;page 2 of 2;page 1 of 2;page 2 of 2;" ] || fail "pages: $(cat n.txt)"
''', files={"twice.cc": LIB + '''
int main() {
  for (int i = 0; i < 2; i++) {
    std::istringstream in("load M = \\"m.stl\\"; page { draw M { @[0,0]; } } page { draw M { @[1,1]; } }");
    if (!stl2ps::ScriptToPS("s", in, std::cout)) return 1;
  }
}
'''})

seed("C17-backslash-escapes-the-end", "C17", "a text that ends in a backslash stays in its string",
     [("ps.cc", "          case ')':\n          case '\\\\':\n            s.push_back('\\\\');\n            s.push_back(c);\n            break;\n", "          case ')':\n            s.push_back('\\\\');\n            s.push_back(c);\n            break;\n\n          case '\\\\':\n            s.append(&c == &t.str.back() ? \"\\\\\" : \"\\\\\\\\\");\n            break;\n"),
      ("ps.cc", "      for (char c : t.str) {", "      for (const char& c : t.str) {")],
     "a text or a page name whose last character is a backslash",
     "the backslash escapes the closing parenthesis, so the string goes on over the rest of the page",
     '''
build
t() {
printf '%s\\n' "page { text[\\"$1\\"] { @[0,0]; } }" > "$W/s.txt"
run s.txt a.ps --notimestamp --nonumber_pages || fail "rejected: $(cat "$W/err")"
grep -qF "($2) show" "$W/a.ps" || fail "the text $1 is not written as ($2): $(grep show "$W/a.ps")"
}
t 'plain' 'plain'
t 'a(b)c' 'a\\(b\\)c'
t 'a\\\\b' 'a\\\\b'
t 'a\\\\' 'a\\\\'
''')

seed("C21-flag-hides-both", "C21", "each of the two flags adds its own part",
     [("ps.cc", "  if (!meta.empty()) {\n", "  if (!meta.empty() && absl::GetFlag(FLAGS_timestamp)) {\n")],
     "a run with --notimestamp and page numbers",
     "switching the time off switches the page numbers off with it",
     '''
build
echo 'page { text["x"] { @[0,0]; } }' > "$W/s.txt"
t() { run s.txt a.ps $1 $2 || fail "rejected: $(cat "$W/err")"; grep -c '^newpath 7 7 moveto (.*page 1 of 1) show' "$W/a.ps"; }
[ "$(t --timestamp --number_pages)" = 1 ] || fail "no number"
[ "$(t --timestamp --nonumber_pages)" = 0 ] || fail "a number"
[ "$(t --notimestamp --nonumber_pages)" = 0 ] || fail "a number"
[ "$(t --notimestamp --number_pages)" = 1 ] || fail "no number without the time"
''')

seed("C22-rest-of-line-ignored", "C22", "a line that is not fully understood is not read",
     [("stl.cc", "    if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {", "    if (RE2::PartialMatch(line, re_vertex, &x, &y, &z)) {")],
     "a vertex whose last number has an exponent with a capital E, or that is followed by something else",
     "the part of the line that does not match is dropped, so that 2E3 is read as 2",
     '''
build
box "$W/m.stl" 1 1 1
echo 'load M = "m.stl"; page { draw M { @[0,0]; } }' > "$W/s.txt"
run s.txt a.ps || fail "a good model is rejected: $(cat "$W/err")"
cp "$W/m.stl" "$W/o.stl"
sed '0,/vertex/s/\\(vertex.*\\)$/\\1E3/' "$W/o.stl" > "$W/m.stl"
run s.txt a.ps && fail "a vertex with E3 at its end is accepted"
sed '0,/vertex/s/\\(vertex.*\\)$/\\1 7/' "$W/o.stl" > "$W/m.stl"
run s.txt a.ps && fail "a vertex with four numbers is accepted"
sed '0,/vertex/s/vertex/nonvertex/' "$W/o.stl" > "$W/m.stl"
run s.txt a.ps && fail "a nonvertex is accepted"
''')

seed("C23-normal-carried-over", "C23", "a facet has its own normal",
     [("stl.cc", "        ret->facets.emplace_back(norm, points);\n      }\n      norm = geo::point::zero;\n", "        ret->facets.emplace_back(norm, points);\n      }\n")],
     "a model with a facet that has no line of its own for the normal, after one that has",
     "the normal of the facet before it is used for the facet, which should be left out",
     '''
build
f() { echo "outer loop"; for v in "$@"; do echo "vertex $v"; done; echo "endloop"; echo "endfacet"; }
{ echo "solid s"; echo "facet normal 0 0 1"; f "0 0 0" "1 0 0" "0 1 0"; echo "endsolid s"; } > "$W/a.stl"
{ echo "solid s"; echo "facet normal 0 0 1"; f "0 0 0" "1 0 0" "0 1 0"; f "5 5 0" "6 5 0" "5 6 0"; echo "endsolid s"; } > "$W/b.stl"
for i in a b; do
  echo "load M = \\"$i.stl\\"; page { draw M { @[0,0]; } }" > "$W/s.txt"
  run s.txt $i.ps --notimestamp || fail "$i is rejected: $(cat "$W/err")"
  grep -v '^%' "$W/$i.ps" > "$W/$i.l"
done
cmp -s "$W/a.l" "$W/b.l" || fail "a facet without a normal is drawn"
''')

seed("C24-indexed-before-culled", "C24", "the index of a rotated mesh is that of the facets it has left",
     [("stl.cc", "  ret.CullBackFace();\n  ret.Index();\n  return ret;", "  ret.Index();\n  ret.CullBackFace();\n  return ret;")],
     "a model some of whose facets face away from the viewer",
     "the index is built before the facets that face away are dropped, so it refers to the wrong ones",
     '''
build
box "$W/m.stl" 1 2 3
t() {
echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; view=$1; } }" > "$W/s.txt"
run s.txt a.ps --notimestamp --nonumber_pages || fail "rejected: $(cat "$W/err")"
n=$(grep -c '^newpath .*lineto stroke' "$W/a.ps")
e=$(( $2 + 3 )) # the border and the two lines of the title
[ $n = $e ] || fail "view $1 has $n lines, not $e"
}
t '"Z+"' 4
t '[30,30]' 9
''')

seed("C25-early-way-out", "C25", "drawing leaves the floating point state as it was",
     [("stl.cc", "  // Find intersections of lines\n", "  if (unseen == 0) return {};\n\n  // Find intersections of lines\n")],
     "a model without anything to draw",
     "the early return leaves the floating point environment changed",
     '''
build "$H/fenv.cc"
box "$W/m.stl" 1 1 1
printf 'solid s\\nendsolid s\\n' > "$W/e.stl"
"$W/fenv" "$W/m.stl" || fail "the state changes while a box is drawn"
"$W/fenv" "$W/e.stl" || fail "the state changes while nothing is drawn"
''', files={"fenv.cc": LIB + '''
int main(int, char** argv) {
  std::ifstream in(argv[1]);
  auto m = stl2ps::STLFile::Make(in);
  if (!m) return 2;
  auto r = m->Rotate(geo::matrix::ZP);
  feenableexcept(FE_DIVBYZERO);
  auto l = r.ToLines();
  return fegetexcept() == FE_DIVBYZERO ? 0 : 1;
}
'''})

seed("C26-names-with-a-dash", "C26", "a name is made of letters, digits and underscores",
     [("lexer.l", "[a-zA-Z_][a-zA-Z0-9_]*  ", "[a-zA-Z_][a-zA-Z0-9_]*(-[a-zA-Z0-9_]+)*  ")],
     "a name with a dash inside",
     "names with dashes are taken, and what was two tokens (a name or keyword and a negative number) becomes one",
     '''
build
box "$W/m.stl" 1 1 1
t() { echo "load $1 = \\"m.stl\\"; page { draw $1 { @[0,0]; } }" > "$W/s.txt"; run s.txt a.ps; }
t 'M_1' || fail "rejected: $(cat "$W/err")"
t 'M1' || fail "rejected: $(cat "$W/err")"
t 'M.1' && fail "a name with a dot is accepted"
t 'M-1' && fail "a name with a dash is accepted"
''')

seed("C27-text-without-place", "C27", "a text has braces",
     [("parser.y", "           |   /* EMPTY */\n                { $$ = new stl2ps::PageParts; }", "           | page_parts TEXT '[' string_lit ']' ';'\n                { ($$ = $1)->draws.emplace_back(absl::make_unique<stl2ps::Text>(@2, absl::WrapUnique($4), absl::make_unique<stl2ps::MetaList>())); }\n           |   /* EMPTY */\n                { $$ = new stl2ps::PageParts; }")],
     "a text followed by a semicolon in place of its braces",
     "a script that the documented grammar does not have is accepted",
     '''
build
t() { echo "page { $1 }" > "$W/s.txt"; run s.txt a.ps; }
t 'text["x"] { }' || fail "rejected: $(cat "$W/err")"
t 'text["x" "y"] { @[1,1]; }' || fail "rejected: $(cat "$W/err")"
t 'text["x"]' && fail "a text without braces is accepted"
t 'text["x"];' && fail "a text with a semicolon is accepted"
''')

seed("C28-pieces-in-reverse", "C28", "the pieces of a string are joined in order",
     [("parser.y", "{ *($$ = $1) += *$2; delete $2; }", "{ $1->size() < 64 ? $1->append(*$2) : $1->insert(64, *$2); $$ = $1; delete $2; }")],
     "a string in pieces of which those before the last have more than 64 bytes together",
     "a piece that follows a long string is put into the middle of it",
     '''
build
t() {
printf '%s\\n' "page { text[$1] { @[0,0]; } }" > "$W/s.txt"
run s.txt a.ps --notimestamp --nonumber_pages || fail "rejected: $(cat "$W/err")"
grep -qF "($2) show" "$W/a.ps" || fail "$1 is not joined to $2"
}
a=$(printf '%060d' 0)
t '"a" "b"' ab
t '"a" "b" "c"' abc
t "\\"$a\\" \\"b\\" \\"c\\"" "${a}bc"
t "\\"$a\\" \\"bcdefgh\\" \\"ijk\\"" "${a}bcdefghijk"
''')

seed("C29-draw-lost-on-error", "C29", "a syntax error leaks nothing",
     [("parser.y", "%destructor {  } <fp> <doc>;", "%destructor {  } <fp> <doc> <draw>;")],
     "a syntax error inside the braces of a draw",
     "what was read of the draw is never freed",
     '''
EXTRA="-fsanitize=address"
CXXF="$CXXF $EXTRA"
build
export ASAN_OPTIONS=detect_leaks=1:exitcode=77
t() { echo "$1" > "$W/s.txt"; run s.txt a.ps; r=$?; [ $r != 77 ] && ! grep -q LeakSanitizer "$W/err" || fail "'$1' leaks: $(grep -m3 -A3 Leak "$W/err")"; }
t 'page { text["a"] { @[0,0] ] } }'
t 'page { name="a" ] }'
t 'page { draw M { scale=1:2; ] } }'
t 'load M = '
''')

seed("C30-line-numbers-go-on", "C30", "every script starts at line 1",
     [("parser.cc", "  stl2psset_lineno(1, scanner);\n", "  if (doc->pages.empty() && doc->models.empty()) stl2psset_lineno(1, scanner);\n")],
     "a script that is parsed into a document that has something in it",
     "the scanner's line number is never set, so the diagnostics of the second script name lines it does not have",
     '''
build "$H/two.cc"
cd "$W"
./two 2> err
grep -q '^error b:1:' err || fail "$(cat err)"
''', files={"two.cc": LIB + '''#include "stl-to-ps/parser.h"
int main() {
  stl2ps::Document doc;
  if (stl2ps::Parse("a", "load M = \\"m.stl\\";\\n", &doc)) return 2;
  stl2ps::Parse("b", "page ]", &doc);
}
'''})

seed("C31-function-named-at-its-argument", "C31", "an unknown function is reported where its name is",
     [("parser.y", "{ $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1); }", "{ $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @3); }")],
     "a point function whose name and argument are on different lines",
     "the diagnostic names the line of the argument",
     '''
build
box "$W/m.stl" 1 1 1
cat > "$W/s.txt" << 'X'
load M = "m.stl";
page { draw M { @[0,0];
  dim(from=[0,0,0], to=
    nowhere(
      [1,0,0]
    ),
    at=[0,1,0], dir=[1,0,0]);
} }
X
run s.txt a.ps && fail "accepted"
grep "Unknown function" "$W/err" | grep -q ':4' || fail "$(cat "$W/err")"
''')

seed("C32-escaped-backslash-then-n", "C32", "an escape is decoded once",
     [("ast.cc", "      switch (ret[++f]) {\n        case 'n':", "      switch (ret[++f]) {\n        case '\\\\':\n          ret[t] = ret[f];\n          if (ret[f + 1] == '\\\\') ++f;\n          break;\n        case 'n':")],
     "a string literal with two escaped backslashes in a row",
     "what follows an escaped backslash is not decoded as it should be",
     '''
build
t() {
printf '%s\\n' "page { text[\\"$1\\"] { @[0,0]; } }" > "$W/s.txt"
run s.txt a.ps --notimestamp --nonumber_pages || fail "rejected: $(cat "$W/err")"
grep -qF "($2) show" "$W/a.ps" || fail "$1 is not written as $2: $(grep show "$W/a.ps")"
}
t 'a\\"b' 'a"b'
t 'a\\\\b' 'a\\\\b'
t 'a\\\\\\\\b' 'a\\\\\\\\b'
''')

seed("C33-view-from-below-mirrored", "C33", "the view from below is not a mirror image",
     [("geo.h", "const Eigen::Matrix3d ZN = ByRow(point::x, -point::y, -point::z);", "const Eigen::Matrix3d ZN = ByRow(-point::x, -point::y, -point::z);")],
     "a draw with view \"Z-\" of a model without mirror symmetry",
     "the view from below shows the mirror image of the model",
     '''
build "$H/views.cc"
"$W/views" || fail "a view is not a rotation"
''', files={"views.cc": LIB + '''
int main() {
  for (const char* v : {"X+", "X-", "Y+", "Y-", "Z+", "Z-"}) {
    Eigen::Matrix3d m;
    if (!stl2ps::GetMatrixByName(v, &m)) return 2;
    if (std::abs(m.determinant() - 1) > 1e-9) { std::cout << v << "\\n"; return 1; }
    Eigen::RowVector3d d = Eigen::RowVector3d::Zero();
    d[v[0] - 'X'] = v[1] == '+' ? 1 : -1;
    if ((d * m).z() < .99) { std::cout << v << " looks elsewhere\\n"; return 1; }
  }
}
'''})

seed("C34-order-with-tolerance", "C34", "points are ordered consistently",
     [("geo.h", "  return (l.x() != r.x())\n             ? (l.x() < r.x())", "  return (std::abs(l.x() - r.x()) > 1e-6)\n             ? (l.x() < r.x())")],
     "three points whose x differ by less than the tolerance from one to the next",
     "the order of points is not transitive, so sets of points and edges lose their order",
     '''
build "$H/order.cc"
"$W/order" || fail "not a strict total order"
''', files={"order.cc": LIB + '''
int main() {
  std::vector<Eigen::RowVector3d> p;
  for (double x : {0.0, 0.6e-6, 1.2e-6, 1.0})
    for (double y : {0.0, 1.0, 2.0}) p.push_back({x, y, 0}), p.push_back({x, -y, 1});
  for (auto& a : p)
    for (auto& b : p) {
      if (geo::Order(a, b) && geo::Order(b, a)) return 1;
      if (a != b && !geo::Order(a, b) && !geo::Order(b, a)) return 1;
      for (auto& c : p)
        if (geo::Order(a, b) && geo::Order(b, c) && !geo::Order(a, c)) return 1;
    }
}
'''})

seed("C35-tilt-of-a-turned-view", "C35", "a view by two angles is a rotation",
     [("geo.cc", "Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +ang_cos * azm_sin},", "Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +azm_sin},")],
     "a view given by two angles neither of which is 0",
     "a model that is turned and tilted is drawn out of proportion",
     '''
build "$H/angles.cc"
"$W/angles" || fail "not a rotation"
''', files={"angles.cc": LIB + '''
int main() {
  for (double a = -180; a <= 180; a += 30)
    for (double b = -180; b <= 180; b += 30) {
      Eigen::Matrix3d m = stl2ps::GetMatrixByAng({a, b});
      if (!(m * m.transpose()).isApprox(Eigen::Matrix3d::Identity(), 1e-9) || m.determinant() < 0) { std::cout << a << " " << b << "\\n"; return 1; }
    }
}
'''})

seed("C36-message-as-format", "C36", "the message of a syntax error is printed as it is",
     [("parser_support.cc", "    fprintf(stderr, \"error %s:%d:%d to %d:%d: %s\\n\",  //\n            fn, bl, bc, el, ec, msg.c_str());", "    fprintf(stderr, \"error %s:%d:%d to %d:%d: \",  //\n            fn, bl, bc, el, ec);\n    fprintf(stderr, (msg + \"\\n\").c_str());")],
     "a syntax error over more than one line whose message has a percent sign",
     "the message is used as a format",
     '''
mkdir -p "$W/o"
g++ $CXXF "$H/err.cc" "$R/stl-to-ps/parser_support.cc" -o "$W/err" || exit 9
"$W/err" 2> "$W/e"
printf 'error f:1:[2,3]: a%%%%b\\nerror f:1:2 to 3:4: a%%%%b\\n' > "$W/x"
cmp -s "$W/e" "$W/x" || fail "$(cat "$W/e")"
''', files={"err.cc": '''#include <string>
#include "stl-to-ps/parser_support.h"
int main() {
  std::string f = "f";
  stl2ps::error(&f, 1, 2, 1, 3, "a%%b");
  stl2ps::error(&f, 1, 2, 3, 4, "a%%b");
}
'''})

seed("C38-near-in-space", "C38", "near finds the vertex that is nearest on the page",
     [("ast.cc", "  target = {target.x(), target.y(), 0};\n", "  if (target.z() != 0) target = {target.x(), target.y(), 0};\n"),
      ("ast.cc", "    x = {x.x(), x.y(), 0};\n    double d = (target - x).squaredNorm();", "    double d = (target - x).squaredNorm();\n    x = {x.x(), x.y(), 0};")],
     "a model with vertices at different heights",
     "the height of a vertex counts in which one is nearest",
     '''
build
box "$W/m.stl" 1 1 50
t() {
echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; dim(from=near($1), to=[0,0,0], at=[0,2,0], dir=[1,0,0], fmt=\\"<%.3f>\\"); } }" > "$W/s.txt"
run s.txt a.ps || fail "rejected: $(cat "$W/err")"
grep -q "<$2>" "$W/a.ps" || fail "near($1) is not at $2: $(grep '<' "$W/a.ps")"
}
t '[0.9,0.1,50]' 1.000
t '[0.1,0.1,50]' 0.000
box "$W/m.stl" 1 1 50 0 0 -60
t '[0.9,0.1,0]' 1.000
cat > "$W/m.stl" << 'X'
solid s
facet normal 0 0 1
outer loop
vertex 0 0 0
vertex 4 0 9
vertex 0 1 0
endloop
endfacet
endsolid s
X
t '[3,0,0]' 4.000
''')

seed("C39-number-of-dots", "C39", "a number that is none cannot crash the reader",
     [("stl.cc", "    if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {\n      points.push_back({x, y, z});", "    std::string sx, sy, sz;\n    if (RE2::FullMatch(line, re_vertex, &sx, &sy, &sz)) {\n      points.push_back({std::stod(sx), std::stod(sy), std::stod(sz)});")],
     "a model with a vertex whose coordinate is only dashes or dots",
     "the program is ended by an exception",
     '''
build
box "$W/m.stl" 1 1 1
cp "$W/m.stl" "$W/o.stl"
echo 'load M = "m.stl"; page { draw M { @[0,0]; } }' > "$W/s.txt"
run s.txt a.ps || fail "a good model is rejected: $(cat "$W/err")"
for v in '- 0 0' '0 . 0' '0 0 e' '1e999999 0 0'; do
  sed "0,/vertex/s/vertex.*/vertex $v/" "$W/o.stl" > "$W/m.stl"
  run s.txt a.ps
  r=$?
  [ $r -le 1 ] || fail "vertex $v ends the program with $r"
done
''')

seed("C41-dim-in-plane", "C41", "a dim is as long as what it measures",
     [(S, "  double dim_value = length.norm();\n", "  double dim_value = Eigen::RowVector2d{length.x(), length.y()}.norm();\n")],
     "a dim along a direction that is not in the plane of the page",
     "the length as it is drawn is printed, not the one that is measured",
     '''
build
box "$W/m.stl" 3 4 12
t() {
echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; view=$1; dim(from=[0,0,0], to=$2, at=[0,5,0], dir=$2, fmt=\\"<%.3f>\\"); } }" > "$W/s.txt"
run s.txt a.ps || fail "rejected: $(cat "$W/err")"
grep -q "<$3>" "$W/a.ps" || fail "$2 from $1 is not $3: $(grep '<' "$W/a.ps")"
}
t '"Z+"' '[3,4,0]' 5.000
t '"Y-"' '[3,0,0]' 3.000
t '"Z+"' '[3,4,12]' 13.000
t '[30,30]' '[3,4,0]' 5.000
''')

seed("C44-normal-from-the-file", "C44", "the plane of a facet is that of its corners",
     [("stl.cc", "    norm = norm * -1;\n", "    norm = n.normalized();\n")],
     "a facet with its corners in clockwise order and a normal that is not quite right",
     "the normal of the file is used although it is not perpendicular to the facet",
     '''
build "$H/facet.cc"
"$W/facet" || fail "the normal is not perpendicular to the facet"
''', files={"facet.cc": LIB + '''
int main() {
  Eigen::RowVector3d a{0, 0, 0}, b{1, 0, 0}, c{0, 1, 0};
  for (auto n : {Eigen::RowVector3d{0, 0, 1}, Eigen::RowVector3d{0, 0, -1}, Eigen::RowVector3d{.1, 0, -1}, Eigen::RowVector3d{.1, .1, 1}})
    for (auto& v : {std::vector<Eigen::RowVector3d>{a, b, c}, std::vector<Eigen::RowVector3d>{c, b, a}}) {
      stl2ps::Facet f(n, v);
      if (std::abs(f.norm.norm() - 1) > 1e-9 || f.norm.dot(n) < 0) return 1;
      for (auto& e : f.edge)
        if (std::abs(f.norm.dot(e) - f.r) > 1e-9) return 1;
      if ((f.edge[1] - f.edge[0]).cross(f.edge[2] - f.edge[0]).dot(f.norm) < .9) return 1;
    }
}
'''})

seed("C45-right-angle-with-nothing", "C45", "a dimension draws only finite numbers",
     [(S, "  if (c.z() == 0) {", "  if (c.z() == 0 && from_dir.dot(to_dir) != 0) {")],
     "an angle one of whose points is its apex",
     "a side without a direction is taken for one at a right angle to the other, and the drawing has nan coordinates",
     '''
build
box "$W/m.stl" 1 1 1
t() { echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; angle(apex=[0,0,0], at=[1,1,0], from_point=$1, to_point=$2); } }" > "$W/s.txt"; run s.txt a.ps; }
t '[1,0,0]' '[0,1,0]' || fail "rejected: $(cat "$W/err")"
for i in '[1,0,0] [-1,0,0]' '[1,0,0] [2,0,0]' '[1,0,0] [0,0,0]' '[0,0,0] [0,1,0]'; do
  if t $i; then grep -q nan "$W/a.ps" && fail "nan is drawn for $i"; fi
done
''')

seed("C46-legs-not-swapped", "C46", "the sides of an angle begin at their own points",
     [(S, "    swap(to_dir, from_dir);\n    swap(to_point, from_point);\n", "    swap(to_dir, from_dir);\n    if (!p_from_dir) swap(to_point, from_point);\n")],
     "an angle with from_dir and to_point that are in clockwise order",
     "the lines along the sides begin at each other's points",
     '''
build
box "$W/m.stl" 2 2 2
t() {
echo "load M = \\"m.stl\\"; page { draw M { @[0,0]; angle(apex=[0,0,0], at=[3,3,0], $1); } }" > "$W/s.txt"
run s.txt $2.ps --notimestamp || fail "rejected: $(cat "$W/err")"
grep lineto "$W/$2.ps" | sort > "$W/$2.l"
}
same() { cmp -s "$W/a.l" "$W/b.l" || fail "$1: $(diff "$W/a.l" "$W/b.l" | head -6)"; }
t 'from_point=[2,0,0], to_point=[0,2,0]' a
t 'to_point=[2,0,0], from_point=[0,2,0]' b
same points
t 'from_dir=[1,0,0], to_point=[0,2,0]' a
t 'to_dir=[1,0,0], from_point=[0,2,0]' b
same 'a direction and a point'
t 'to_dir=[0,1,0], from_point=[2,0,0]' a
t 'from_dir=[0,1,0], to_point=[2,0,0]' b
same 'a point and a direction'
''')

seed("C47-two-of-three-corners", "C47", "the extent takes in every corner",
     [("stl.cc", "    for (const auto& e : f.edge) {\n      minp.x()", "    for (const auto& e : {f.edge[0], f.edge[1]}) {\n      minp.x()")],
     "a model with a corner that comes last in every facet that has it",
     "the third corner of a facet does not count, so the drawing is not centred",
     '''
build "$H/limits.cc"
"$W/limits" || fail "a corner is out of the limits"
''', files={"limits.cc": LIB + '''
int main() {
  for (int k = 0; k < 3; k++) {
    const char* v[] = {"vertex 0 0 0\\n", "vertex 5 0 0\\n", "vertex 5 9 0\\n"};
    std::istringstream in(std::string("solid s\\nfacet normal 0 0 1\\nouter loop\\n") + v[k] + v[(k + 1) % 3] + v[(k + 2) % 3] + "endloop\\nendfacet\\nendsolid s\\n");
    auto m = stl2ps::STLFile::Make(in);
    if (!m) return 2;
    auto l = m->Limits();
    if (l.o.x() != 0 || l.o.y() != 0 || l.t.x() != 5 || l.t.y() != 9) return 1;
  }
}
'''})
