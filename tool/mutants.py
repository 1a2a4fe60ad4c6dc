"""Edits used by mutate.py: (name, [(file, old, new)...], checks that must report it; [] when nothing may)."""
S = "stl-to-ps.cc"
MUTANTS = []


def m(name, file, old, new, *want):
    MUTANTS.append((name, [(file, old, new)], list(want)))


def mm(name, edits, *want):
    MUTANTS.append((name, edits, list(want)))


# ---- C01
m("main ignores ret", "stl-to-ps-main.cc", "return ret ? 0 : 1;", "return 0;", "C01")
m("main no out check", "stl-to-ps-main.cc", "if (ret && out.fail()) {", "if (ret && in.fail()) {", "C01")
m("main check before close", "stl-to-ps-main.cc", "  in.close();\n  out.close();\n  if (ret && out.fail()) {\n    LOG(ERROR) << \"Failed to write \" << absl::GetFlag(FLAGS_output);\n    return 1;\n  }\n",
  "  in.close();\n  if (ret && out.fail()) {\n    LOG(ERROR) << \"Failed to write \" << absl::GetFlag(FLAGS_output);\n    return 1;\n  }\n  out.close();\n", "C01")
m("main missing script ok", "stl-to-ps-main.cc", "    LOG(INFO) << \"No script file\";\n    return 1;", "    LOG(INFO) << \"No script file\";\n    return 0;", "C01")
m("main in unchecked", "stl-to-ps-main.cc", "CHECK(in.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_script);", "(void)0;", "C01")
m("main inverted", "stl-to-ps-main.cc", "return ret ? 0 : 1;", "return ret ? 1 : 0;", "C01")
m("parse ret ignored when negative", S, "if (int ret = Parse(src, file_string, &doc)) {", "if (int ret = Parse(src, file_string, &doc); ret == 1) {", "C01")
m("ref main swap close", "stl-to-ps-main.cc", "  in.close();\n  out.close();\n", "  out.close();\n  in.close();\n")
m("ref main early return", "stl-to-ps-main.cc", "  in.close();\n  out.close();\n  if (ret && out.fail()) {\n    LOG(ERROR) << \"Failed to write \" << absl::GetFlag(FLAGS_output);\n    return 1;\n  }\n\n  return ret ? 0 : 1;",
  "  in.close();\n  out.close();\n  if (!ret) return 1;\n  const bool bad = out.fail();\n  if (bad) {\n    LOG(ERROR) << \"Failed to write \" << absl::GetFlag(FLAGS_output);\n    return EXIT_FAILURE;\n  }\n  return EXIT_SUCCESS;")
# ---- C02
m("render before pages checked", S, "  if (!GeneratePages(stl_files, doc, &pages)) return false;\n\n  RenderPages(src, pages, out);\n  return true;",
  "  bool ok = GeneratePages(stl_files, doc, &pages);\n  RenderPages(src, pages, out);\n  return ok;", "C02")
m("load failure ignored", S, "if (!LoadFiles(doc, &stl_files)) return false;", "LoadFiles(doc, &stl_files);", "C01", "C02")
m("header early", S, "  std::vector<OutputPage> pages;\n  if (!Gen", "  out << std::flush << \"%!PS\\n\";\n  std::vector<OutputPage> pages;\n  if (!Gen", "C02")
m("render twice", S, "  RenderPages(src, pages, out);\n  return true;", "  RenderPages(src, pages, out);\n  RenderPages(src, pages, out);\n  return true;", "C02")
m("ref ScriptToPS", S, "  if (!GeneratePages(stl_files, doc, &pages)) return false;\n\n  RenderPages(src, pages, out);\n  return true;",
  "  const bool generated = GeneratePages(stl_files, doc, &pages);\n  if (generated) {\n    RenderPages(src, pages, out);\n  }\n  return generated;")
# ---- C03
m("ok overwritten draw", S, "if (!draw->VisitNode(&visitor)) ok = false;", "ok = draw->VisitNode(&visitor);", "C03")
m("dims ok overwritten", S, "for (const auto& dim : dims) ok &= dim->VisitNode(this);", "for (const auto& dim : dims) ok = dim->VisitNode(this);", "C03")
m("dims |=", S, "for (const auto& dim : dims) ok &= dim->VisitNode(this);", "for (const auto& dim : dims) ok |= dim->VisitNode(this);", "C03")
m("angle ok drop", S, "  ok &= GetRotated(p_at, &at);\n  ok &= GetRotated(p_apex, &apex);", "  GetRotated(p_at, &at);\n  ok &= GetRotated(p_apex, &apex);", "C03")
m("load continue without ok", S, "                           << \" from '\" << file << \"'\";\n      ok = false;", "                           << \" from '\" << file << \"'\";", "C03", "C05")
m("flatten returns true", S, "      SYM_ERROR(*i) << \"Duplicate \" << name << \" property '\" << i->name << \"'\";\n      ok = false;", "      SYM_ERROR(*i) << \"Duplicate \" << name << \" property '\" << i->name << \"'\";", "C03")
m("fmt invalid falls back", S, "      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for dim: must be a '%f' type\";\n      return false;\n    }\n    fmt = std::move(*user_fmt);",
  "      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for dim: must be a '%f' type\";\n    } else {\n    fmt = std::move(*user_fmt);}", "C03")
# ---- C04
m("silent unknown model", S, "    SYM_ERROR(draw) << \"Unknown model '\" << draw.name << \"'\";\n    return false;", "    return false;", "C04")
m("silent fmt", S, "      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for rad: must be a '%f' type\";\n", "", "C04")
m("info instead of error", S, "LOG(ERROR) << \"Parse failed with rc=\" << ret;", "LOG(INFO) << \"Parse failed with rc=\" << ret;")
m("ref GetRotated", S, "    if (!p->Invoke(points_, p_out)) {\n      return false;\n    }\n  } else {", "    return p->Invoke(points_, p_out);\n  } else {")
# ---- C05/6
m("dup model overwrites", S, "    auto added = stl_files->emplace(name, nullptr);\n    if (!added.second) {", "    auto added = stl_files->emplace(name, nullptr);\n    if (!added.second && added.first->second == nullptr) {", "C05")
m("stop at first bad model", S, "                           << \" from '\" << file << \"'\";\n      ok = false;\n      continue;", "                           << \" from '\" << file << \"'\";\n      return false;", "C05")
m("parse fail ignored", S, "    if (!added.first->second) {\n      SYM_ERROR(doc_model)", "    if (!added.first->second && !ok) {\n      SYM_ERROR(doc_model)", "C05")
m("model not cleared", S, "  stl_files->clear();\n", "", "C05")
m("last path wins", S, "        if (model.rdstate() == std::ios_base::goodbit) break;", "        if (model.rdstate() != std::ios_base::goodbit) continue;", "C06")
m("path after", S, "      r.insert(r.begin(), \".\");", "      r.push_back(\".\");", "C06")
m("absolute too lax", S, "if (file.find('/') == 0) {", "if (file.find('/') != std::string::npos) {", "C06")
m("no slash", S, "model.open(p + \"/\" + file, std::ios::in);", "model.open(p + file, std::ios::in);", "C06")
m("wrong separator", S, "absl::StrSplit(absl::GetFlag(FLAGS_load_path), ',')", "absl::StrSplit(absl::GetFlag(FLAGS_load_path), ':')", "C06")
m("ref load", S, "        if (model.rdstate() == std::ios_base::goodbit) break;", "        if (!model.fail()) {\n          break;\n        }")
m("ref load2", S, "    if (file.find('/') == 0) {", "    if (!file.empty() && file[0] == '/') {")
# ---- C16
m("page numbered 0", S, "ps::PageHeader(++page_number, pages.size(), out);", "ps::PageHeader(page_number++, pages.size(), out);", "C16")
m("stop after failed draw", S, "if (!draw->VisitNode(&visitor)) ok = false;", "if (!draw->VisitNode(&visitor)) { ok = false; break; }", "C16")
m("short circuit draw", S, "if (!draw->VisitNode(&visitor)) ok = false;", "ok = ok && draw->VisitNode(&visitor);", "C16")
m("wrong page", S, "    visitor.set_current_page(&current_page);", "    visitor.set_current_page(&pages->front());", "C16")
m("skip empty page", S, "    pages->push_back({});\n", "    if (doc_page.draws.empty()) continue;\n    pages->push_back({});\n", "C16")
m("no title", S, "    current_page.AddHeader(page_name, pages->size(), doc.pages.size());\n", "", "C11")
m("total minus one", S, "ps::PageHeader(++page_number, pages.size(), out);", "ps::PageHeader(++page_number, pages.size() - 1, out);", "C16")
m("ref pages index", S, "  int page_number = 0;\n  for (const auto& page : pages) {\n    ps::PageHeader(++page_number, pages.size(), out);",
  "  for (size_t i = 0; i < pages.size(); ++i) {\n    const auto& page = pages[i];\n    ps::PageHeader(i + 1, pages.size(), out);")
m("ref pages emplace", S, "    pages->push_back({});\n    auto& current_page = *pages->rbegin();", "    pages->emplace_back();\n    OutputPage& current_page = pages->back();")
# ---- C20
m("text after lines", S, "    ps::TextToPs(page.text, out);\n    ps::ArcToPs(page.arcs, out);\n    ps::LinesToPs(page.lines, out);", "    ps::ArcToPs(page.arcs, out);\n    ps::LinesToPs(page.lines, out);\n    ps::TextToPs(page.text, out);", "C20")
m("no arcs when lines empty", S, "    ps::ArcToPs(page.arcs, out);\n", "    if (!page.lines.empty()) ps::ArcToPs(page.arcs, out);\n", "C20")
m("header only if pages", S, "  ps::DocumentHeader(src, out);\n", "  if (!pages.empty()) ps::DocumentHeader(src, out);\n", "C20")
# ---- C37
m("rotate in place", S, "    auto p = orig->Clone();  // The document must not be changed.\n", "    auto p = orig;\n", "C37")

for _n, _c in (("rfind", "file.rfind('/', 0) == 0"), ("compare", 'file.compare(0, 1, "/") == 0'), ("substr", 'file.substr(0, 1) == "/"'), ("front", "!file.empty() && file.front() == '/'"),
               ("begin", "file.size() > 0 && *file.begin() == '/'"), ("not npos", "file.find('/') != std::string::npos && file.find('/') == 0"), ("first of", "file.find_first_of('/') == 0")):
    m("ref absolute " + _n, S, "if (file.find('/') == 0) {", "if (%s) {" % _c)
# ---- C07-C10
m("unknown text props ignored", S, "  if (!seen.empty()) {\n    SYM_ERROR(text) <<", "  if (!seen.empty() && text.text.empty()) {\n    SYM_ERROR(text) <<", "C07")
m("unknown only warned", S, "    SYM_ERROR(dim) << \"Unexepcted properties for dim\";\n    for (const auto& p : seen) {\n      SYM_ERROR(*p.second) << p.second->name;\n    }\n    return false;",
  "    for (const auto& p : seen) {\n      SYM_ERROR(*p.second) << p.second->name;\n      ok = p.first != \"note\" && ok;\n    }", "C07")
m("unknown: only many", S, "  if (!seen->empty()) {\n    SYM_ERROR(rad)", "  if (seen->size() > 1) {\n    SYM_ERROR(rad)", "C07")
m("extra take", S, "  auto p_fmt = Take(\"fmt\", seen);\n\n  if (!seen->empty()) {\n    SYM_ERROR(dia)", "  auto p_fmt = Take(\"fmt\", seen);\n  Take(\"note\", seen);\n\n  if (!seen->empty()) {\n    SYM_ERROR(dia)", "C07", "C11")
m("draw unknown", S, "  if (!seen.empty()) {\n    SYM_ERROR(draw) <<", "  if (!seen.empty() && draw.dims.empty()) {\n    SYM_ERROR(draw) <<", "C07")
m("page unknown", S, "      SYM_ERROR(doc_page) << \"Unexepcted properties for page \" << pages->size();\n      for (const auto& p : seen) {\n        SYM_ERROR(*p.second) << p.second->name;\n      }\n      ok = false;",
  "      for (const auto& p : seen) {\n        LOG(WARNING) << p.second->name;\n      }", "C07")
m("dup overwrites", S, "    if (!seen->emplace(i->name, i.get()).second) {", "    if (!i->name.empty()) { (*seen)[i->name] = i.get(); } else {", "C08")
m("dup same pointer", S, "    if (!seen->emplace(i->name, i.get()).second) {", "    auto r = seen->emplace(i->name, i.get());\n    if (!r.second && r.first->second->name != \"fmt\") {", "C08")
m("dup result ignored", S, "  ok &= Flatten(\"dim\", dim.meta_list, &seen);", "  Flatten(\"dim\", dim.meta_list, &seen);", "C08")
m("view wrong type default", S, "      SYM_ERROR(*view) << \"Unexpect view type: \" << view->type_name();\n      return false;", "      LOG(INFO) << \"Unexpect view type: \" << view->type_name();", "C09")
m("fmt wrong type default", S, "    if (!p_fmt->As(&fmt_str)) {\n      SYM_ERROR(*p_fmt) << \"fmt argument for angle is the wrong type\";\n      return false;\n    }", "    if (!p_fmt->As(&fmt_str)) fmt_str = \"%.1f\";", "C09")
m("point wrong type", S, "    SYM_ERROR(*p_in) << \"Expected point for '\" << p_in->name  //\n                     << \"' got \" << p_in->type_name();\n    return false;", "    *p_out = {0, 0, 0};", "C09")
m("no dir", S, "  if (!p_dir) {\n    SYM_ERROR(dia) << \"Missing 'dir'\";\n    ok = false;\n  }\n", "", "C10")
m("no from crash", S, "  if (!p_from) {\n    SYM_ERROR(dim) << \"Missing 'from'\";\n    ok = false;\n  }\n", "", "C10")
m("both ok", S, "  if (p_to_dir && p_to_point) {\n    SYM_ERROR(*p_to_dir) << \"Both 'to_{dir,point}' provided\";\n    ok = false;\n  }\n", "", "C10")
m("zero dir", S, "  if (dir == geo::point::zero) {\n    SYM_ERROR(*p_dir) << \"Dimention's 'dir' must not be the zero vector\";\n    return false;\n  }\n", "")
# ---- C11, C12
m("at ignored in dim", S, "  t.at.x() = at.x();\n  t.at.y() = at.y();\n  t.str = absl::StrFormat(fmt, dim_value);", "  t.at.x() = (from.x() + to.x()) / 2;\n  t.at.y() = (from.y() + to.y()) / 2;\n  t.str = absl::StrFormat(fmt, dim_value);")
m("fmt taken and dropped", S, "    fmt = std::move(*user_fmt);\n  }\n\n  dir = dir.normalized();\n\n  Eigen::RowVector2d a = center + dir * r;", "  }\n\n  dir = dir.normalized();\n\n  Eigen::RowVector2d a = center + dir * r;", "C11", "C12")
m("scale ignored", S, "  proj.scale = 72.0 * scales.first / scales.second;", "  proj.scale = 72.0;", "C11", "C15", "C43")
m("page name dropped", S, "    current_page.AddHeader(page_name,", "    current_page.AddHeader(\"\",", "C11")
m("default fmt angle", S, "absl::ParsedFormat<'f'> fmt{\"%.1f\"};", "absl::ParsedFormat<'f'> fmt{\"%.0f\"};", "C12")
m("fmt unvalidated", S, "  t.str = absl::StrFormat(fmt, dim_value);", "  char buf[64];\n  std::string f2 = \"%.3f\";\n  if (p_fmt) p_fmt->As(&f2);\n  snprintf(buf, sizeof(buf), f2.c_str(), dim_value);\n  t.str = buf;", "C11", "C12")
# ---- C13
m("no label when short", S, "  t.str = absl::StrFormat(fmt, dim_value);\n  t.center = true;\n  AddText({t});", "  t.str = absl::StrFormat(fmt, dim_value);\n  t.center = true;\n  if (dim_value > 1e-3) AddText({t});", "C13")
m("no arc", S, "  AddArcs({\n      {apex, l, from_dir, to_dir},\n  });\n", "  if (l > gap) AddArcs({\n      {apex, l, from_dir, to_dir},\n  });\n", "C13")
m("label before fail", S, "  AddArcs({\n      {apex, l, from_dir, to_dir},\n  });\n", "  AddArcs({\n      {apex, l, from_dir, to_dir},\n  });\n  if (l == 0) { SYM_ERROR(dim) << \"x\"; return false; }\n", "C13")
m("dia not raw", S, "  t.raw = true;\n", "", "C13")
# ---- C14
m("offset before scale", S, "    l.o *= proj.scale;\n    l.t *= proj.scale;\n    l.o += proj.d;", "    l.o += proj.d;\n    l.o *= proj.scale;\n    l.t *= proj.scale;", "C14")
m("radius unscaled", S, "    a.r *= proj.scale;\n", "", "C14")
m("lines end not moved", S, "    l.t += proj.d;\n", "", "C14", "C15")
# ---- C15, C43
m("scale kept", S, "  proj.scale = 72.0 * scales.first / scales.second;", "  if (scales.first != 1 || scales.second != 1) proj.scale = 72.0 * scales.first / scales.second;\n  else if (proj.scale == 0) proj.scale = 72;", "C15")
m("scale int div", S, "72.0 * scales.first / scales.second;", "72 * (scales.first / scales.second);", "C43", "C15")
m("scale swapped", S, "72.0 * scales.first / scales.second;", "72.0 * scales.second / scales.first;", "C43")
m("scale check zero", S, "scales.first < 1 || scales.second < 1", "scales.first < 0 || scales.second < 1", "C43")
m("scale check and", S, "scales.first < 1 || scales.second < 1", "scales.first < 1 && scales.second < 1", "C43")
m("rotation kept", S, "  rotation_ = rotation;\n", "  if (rotation != geo::matrix::ZP || rotation_ == Eigen::Matrix3d{}) rotation_ = rotation;\n", "C15")
m("points from file", S, "  if (!AddDims(projection, draw.dims, rotation)) return false;", "  if (!AddDims(*file->second, draw.dims, rotation)) return false;", "C15")
m("limits of model", S, "  auto page_limit = projection.Limits();", "  auto page_limit = file->second->Limits();", "C15")
m("limit minus", S, "(page_limit.o + page_limit.t) / 2 * proj.scale", "(page_limit.t - page_limit.o) / 2 * proj.scale", "C15")
m("loc in points", S, "    loc *= 72.0;\n", "", "C15")
m("default view", S, "Eigen::Matrix3d rotation = geo::matrix::ZP;", "Eigen::Matrix3d rotation = geo::matrix::ZN;", "C15")
m("dim sets scale", S, "  dir /= proj.scale;\n  Eigen::RowVector2d cross{-dir.y(), dir.x()};\n  AddLines({\n      {a, a + (-6 * dir", "  if (r * proj.scale < 1) proj.scale = 1;\n  dir /= proj.scale;\n  Eigen::RowVector2d cross{-dir.y(), dir.x()};\n  AddLines({\n      {a, a + (-6 * dir", "C15")
m("lines after dims", S, "  AddLines(projection.ToLines());\n\n  if (!AddDims(projection, draw.dims, rotation)) return false;\n", "  if (!AddDims(projection, draw.dims, rotation)) return false;\n  AddLines(projection.ToLines());\n")
m("dims skipped without points", S, "  for (const auto& dim : dims) ok &= dim->VisitNode(this);", "  if (points_.empty()) return true;\n  for (const auto& dim : dims) ok &= dim->VisitNode(this);", "C15")
m("first dim only on fail", S, "  for (const auto& dim : dims) ok &= dim->VisitNode(this);", "  for (const auto& dim : dims) { ok &= dim->VisitNode(this); if (dims.size() > 64) break; }", "C15")
# ---- refactors
m("ref draw order", S, "  const auto file = stl_files.find(draw.name);\n  if (file == stl_files.end()) {\n    SYM_ERROR(draw) << \"Unknown model '\" << draw.name << \"'\";\n    return false;\n  }\n", "  if (stl_files.count(draw.name) == 0) {\n    SYM_ERROR(draw) << \"Unknown model '\" << draw.name << \"'\";\n    return false;\n  }\n  const auto file = stl_files.find(draw.name);\n")
m("ref addlines emplace", S, "void DrawToPage::AddLines(const std::vector<geo::Line>& lines) {", "void DrawToPage::AddLines(const std::vector<geo::Line>& lines) {\n  current_page->lines.reserve(current_page->lines.size() + lines.size());")
m("ref scale local", S, "  proj.scale = 72.0 * scales.first / scales.second;", "  const double points_per_inch = 72.0;\n  proj.scale = (points_per_inch * scales.first) / scales.second;")
m("ref dims loop", S, "  bool ok = true;\n  for (const auto& dim : dims) ok &= dim->VisitNode(this);\n  return ok;", "  bool failed = false;\n  for (auto it = dims.begin(); it != dims.end(); ++it) {\n    if (!(*it)->VisitNode(this)) failed = true;\n  }\n  return !failed;")
m("ref take", S, "  auto i = m->find(name);\n  if (i == m->end()) return nullptr;\n  Meta* k = i->second;\n  m->erase(i);\n  return k;", "  Meta* k = nullptr;\n  auto i = m->find(name);\n  if (i != m->end()) {\n    k = i->second;\n    m->erase(name);\n  }\n  return k;")
m("ref flatten", S, "    if (!seen->emplace(i->name, i.get()).second) {", "    const bool inserted = seen->insert({i->name, i.get()}).second;\n    if (!inserted) {")
m("ref flatten count", S, "    if (!seen->emplace(i->name, i.get()).second) {\n      SYM_ERROR(*i) << \"Duplicate \" << name << \" property '\" << i->name << \"'\";\n      ok = false;\n    }", "    if (seen->count(i->name)) {\n      SYM_ERROR(*i) << \"Duplicate \" << name << \" property '\" << i->name << \"'\";\n      ok = false;\n      continue;\n    }\n    (*seen)[i->name] = i.get();")
# ---- C17-C20
P = "ps.cc"
m("escape misses )", P, "          case '(':\n          case ')':\n", "          case '(':\n", "C17")
m("escape misses backslash", P, "          case '\\\\':\n", "", "C17")
m("escape strips high bytes", P, "          default:\n            s.push_back(c);\n            break;\n", "          default:\n            if (c > 0) s.push_back(c);\n            break;\n", "C17")
m("escape newline", P, "          default:\n            s.push_back(c);\n            break;\n", "          default:\n            s.push_back(c);\n            break;\n          case '\\n':\n            s += \"\\\\n\";\n            break;\n", "C17")
m("balanced not escaped", P, "          case '(':\n          case ')':\n          case '\\\\':\n            s.push_back('\\\\');\n", "          case '(':\n          case ')':\n          case '\\\\':\n            if (t.center || c == '\\\\') s.push_back('\\\\');\n", "C17")
m("raw when center", P, "    if (t.raw) {", "    if (t.raw || t.center) {", "C17")
m("dim raw", S, "  t.str = absl::StrFormat(fmt, dim_value);\n  t.center = true;", "  t.str = absl::StrFormat(fmt, dim_value);\n  t.center = true;\n  t.raw = true;", "C17")
m("title raw", S, "  title.str = name;\n", "  title.str = name;\n  title.raw = true;\n", "C17")
m("dia escape missing", S, ",\n                          {{\"\\\\\", \"\\\\\\\\\"}, {\"(\", \"\\\\(\"}, {\")\", \"\\\\)\"}}", ",\n                          {{\"(\", \"\\\\(\"}, {\")\", \"\\\\)\"}}", "C17")
m("comment keeps cr", P, "c == '\\n' || c == '\\r' || c == '\\f'", "c == '\\n' || c == '\\f'", "C18")
m("comment src raw", P, "impl::Comment(src)", "src", "C18")
m("name as define", P, "% Name: $0\n", "/DocName ($0) def\n", "C18")
m("source in page", P, "% File Header %%%%%%\n/FontSize", "/Source ($1) def\n/FontSize", "C18", "C17")
m("no newpath", P, "\"newpath $0 $1 $2 $3 $4 arc stroke\\n\"", "\"$0 $1 $2 $3 $4 arc stroke\\n\"", "C19")
m("no newline", P, "lineto stroke\\n\",", "lineto stroke\",", "C19")
m("no stroke", P, "moveto $2 $3 lineto stroke\\n", "moveto $2 $3 lineto\\n", "C19")
m("radians", P, "a.end * 180 / geo::PI", "a.end", "C19")
m("arc swapped", P, "a.r, a.start * 180 / geo::PI,\n                            a.end * 180 / geo::PI", "a.r, a.end * 180 / geo::PI,\n                            a.start * 180 / geo::PI", "C19")
m("line xy", P, "l.o.x(), l.o.y(), l.t.x(), l.t.y()", "l.o.x(), l.o.y(), l.t.y(), l.t.x()", "C19")
m("skip tiny arcs", P, "  for (const auto& a : arcs) {\n", "  for (const auto& a : arcs) {\n    if (a.r < 1) continue;\n", "C19")
m("header stack", P, "  pop     % throw away the \"height\"\n", "", "C19")
m("center right", P, "-2 div  % half and negate", "2 div  % half and negate", "C20")
m("center unused", P, "moveto ($2) CenterText show", "moveto ($2) show", "C20")
m("center always", P, ": \"newpath $0 $1 moveto ($2) show\\n\"", ": \"newpath $0 $1 moveto ($2) CenterText show\\n\"", "C20")
m("no showpage", P, "showpage %%%%%%%%%", "% showpage %%%%%%%%%", "C20")
m("append output", "stl-to-ps-main.cc", "(std::ios::out | std::ios::trunc)", "(std::ios::out | std::ios::app)", "C20")
m("centertext gone", P, "/CenterText {", "/CentreText {", "C19")
m("ref lines stream", P, "    out << absl::Substitute(\"newpath $0 $1 moveto $2 $3 lineto stroke\\n\",  //\n                            l.o.x(), l.o.y(), l.t.x(), l.t.y());", "    out << \"newpath \" << l.o.x() << ' ' << l.o.y() << \" moveto \"\n        << l.t.x() << ' ' << l.t.y() << \" lineto stroke\\n\";")
m("ref lines index", P, "  for (const auto& l : lines) {\n", "  for (size_t i = 0; i < lines.size(); ++i) {\n    const geo::Line& l = lines[i];\n")
m("ref lines strcat", P, "    out << absl::Substitute(\"newpath $0 $1 moveto $2 $3 lineto stroke\\n\",  //\n                            l.o.x(), l.o.y(), l.t.x(), l.t.y());", "    out << absl::StrCat(\"newpath \", l.o.x(), \" \", l.o.y(), \" moveto \", l.t.x(), \" \", l.t.y(), \" lineto stroke\\n\");")
m("ref escape if", P, "        switch (c) {\n          default:\n            s.push_back(c);\n            break;\n\n          case '(':\n          case ')':\n          case '\\\\':\n            s.push_back('\\\\');\n            s.push_back(c);\n            break;\n        }", "        if (c == '(' || c == ')' || c == '\\\\') s += '\\\\';\n        s += c;")
m("ref escape strchr", P, "        switch (c) {\n          default:\n            s.push_back(c);\n            break;\n\n          case '(':\n          case ')':\n          case '\\\\':\n            s.push_back('\\\\');\n            s.push_back(c);\n            break;\n        }", "        static const std::string special = \"()\\\\\";\n        if (special.find(c) != std::string::npos) s.append(1, '\\\\');\n        s.append(1, c);")
m("ref escape index", P, "      for (char c : t.str) {\n", "      for (size_t i = 0; i < t.str.size(); i++) {\n        const char c = t.str[i];\n")
m("ref two templates", P, "    out << absl::Substitute(\n        (t.center ? \"newpath $0 $1 moveto ($2) CenterText show\\n\"\n                  : \"newpath $0 $1 moveto ($2) show\\n\"),\n        t.at.x(), t.at.y(), s);", "    out << absl::Substitute(\"newpath $0 $1 moveto ($2) \", t.at.x(), t.at.y(), s);\n    if (t.center) out << \"CenterText \";\n    out << \"show\\n\";")
m("ref arcs degrees", P, "a.start * 180 / geo::PI,\n                            a.end * 180 / geo::PI", "a.start * (180 / geo::PI),\n                            a.end * (180 / geo::PI)")
m("ref comment", P, "  for (char& c : s) {\n    if (c == '\\n' || c == '\\r' || c == '\\f') c = ' ';\n  }\n  return s;", "  std::string r;\n  for (const char c : s) {\n    switch (c) {\n      case '\\n':\n      case '\\r':\n      case '\\f':\n        r += ' ';\n        break;\n      default:\n        r += c;\n    }\n  }\n  return r;")
m("ref comment replace", P, "  for (char& c : s) {\n    if (c == '\\n' || c == '\\r' || c == '\\f') c = ' ';\n  }\n  return s;", "  std::replace_if(s.begin(), s.end(), [](char c) { return c == '\\n' || c == '\\r' || c == '\\f'; }, ' ');\n  return s;")
m("ref escape helper", P, "void TextToPs(const std::vector<Text>& text, std::ostream& out) { //\n  for (const auto t : text) {\n    std::string s;\n    if (t.raw) {\n      s = t.str;\n    } else {\n      s.reserve(t.str.size());\n      for (char c : t.str) {\n        switch (c) {\n          default:\n            s.push_back(c);\n            break;\n\n          case '(':\n          case ')':\n          case '\\\\':\n            s.push_back('\\\\');\n            s.push_back(c);\n            break;\n        }\n      }\n    }\n",
  "namespace {\nstd::string Escape(const std::string& in) {\n  std::string s;\n  for (const char c : in) {\n    if (c == '(' || c == ')' || c == '\\\\') s.push_back('\\\\');\n    s.push_back(c);\n  }\n  return s;\n}\n}  // namespace\n\nvoid TextToPs(const std::vector<Text>& text, std::ostream& out) { //\n  for (const auto& t : text) {\n    const std::string s = t.raw ? t.str : Escape(t.str);\n")

# ---- C21
m("time each call", P, "  const static auto ret = [] {", "  const auto ret = [] {", "C21")
m("time static mutable", P, "  const static auto ret = [] {\n    absl::TimeZone tz;\n    absl::LoadTimeZone(\"localtime\", &tz);\n\n    return absl::FormatTime(\"%Y-%m-%d %I:%M:%S\", absl::Now(), tz);\n  }();\n  return ret;",
  "  static std::string ret;\n  absl::TimeZone tz;\n  absl::LoadTimeZone(\"localtime\", &tz);\n  ret = absl::FormatTime(\"%Y-%m-%d %I:%M:%S\", absl::Now(), tz);\n  return ret;", "C21")
m("timestamp always", P, "  if (absl::GetFlag(FLAGS_timestamp)) {", "  {", "C21")
m("timestamp or number", P, "  if (absl::GetFlag(FLAGS_timestamp)) {", "  if (absl::GetFlag(FLAGS_timestamp) || absl::GetFlag(FLAGS_number_pages)) {", "C21")
m("timestamp only with number", P, "  if (absl::GetFlag(FLAGS_number_pages)) {\n    meta", "  if (absl::GetFlag(FLAGS_number_pages) && meta.empty()) {\n    meta", "C21")
m("numbers inverted", P, "  if (absl::GetFlag(FLAGS_number_pages)) {", "  if (!absl::GetFlag(FLAGS_number_pages)) {", "C21")
m("numbers only for many", P, "  if (absl::GetFlag(FLAGS_number_pages)) {", "  if (absl::GetFlag(FLAGS_number_pages) && pages > 1) {", "C21")
m("total missing", P, 'absl::StrCat("page ", num, " of ", pages)', 'absl::StrCat("page ", num)', "C21")
m("header needs both", P, "  if (!meta.empty()) {", "  if (meta.size() > 1) {", "C21")
m("random jitter", P, "    t.at = {7, 7};", "    t.at = {7.0, 7.0 + rand() % 2};", "C21")
m("models by address", S, "  std::vector<OutputPage> pages;\n  if (!Gen", "  std::set<const Model*> order;\n  for (const auto& l : doc.models) order.insert(&l);\n  for (const auto* l : order) out << l->name;\n  std::vector<OutputPage> pages;\n  if (!Gen", "C21", "C02", "C20")
m("ref now local", P, "  const static auto ret = [] {\n    absl::TimeZone tz;\n    absl::LoadTimeZone(\"localtime\", &tz);\n\n    return absl::FormatTime(\"%Y-%m-%d %I:%M:%S\", absl::Now(), tz);\n  }();\n  return ret;",
  "  static const std::string& now = *new std::string([] {\n    absl::TimeZone tz;\n    absl::LoadTimeZone(\"localtime\", &tz);\n\n    return absl::FormatTime(\"%Y-%m-%d %I:%M:%S\", absl::Now(), tz);\n  }());\n  return now;")
m("ref now global", P, "std::string Now() {\n  const static auto ret = [] {\n    absl::TimeZone tz;\n    absl::LoadTimeZone(\"localtime\", &tz);\n\n    return absl::FormatTime(\"%Y-%m-%d %I:%M:%S\", absl::Now(), tz);\n  }();\n  return ret;",
  "std::string FormatNow() {\n  absl::TimeZone tz;\n  absl::LoadTimeZone(\"localtime\", &tz);\n  return absl::FormatTime(\"%Y-%m-%d %I:%M:%S\", absl::Now(), tz);\n}\nconst std::string& Now() {\n  static const std::string ret = FormatNow();\n  return ret;")
m("ref meta string", P, "  std::vector<std::string> meta;\n  if (absl::GetFlag(FLAGS_timestamp)) {\n    meta.emplace_back(impl::Now());\n  }\n\n  if (absl::GetFlag(FLAGS_number_pages)) {\n    meta.emplace_back(absl::StrCat(\"page \", num, \" of \", pages));\n  }\n\n  if (!meta.empty()) {\n    Text t;\n    t.at = {7, 7};\n    t.str = absl::StrJoin(meta, \" \");",
  "  std::string meta;\n  if (absl::GetFlag(FLAGS_timestamp)) meta = impl::Now();\n  if (absl::GetFlag(FLAGS_number_pages)) {\n    if (!meta.empty()) meta += \" \";\n    meta += absl::StrCat(\"page \", num, \" of \", pages);\n  }\n\n  if (!meta.empty()) {\n    Text t;\n    t.at = {7, 7};\n    t.str = meta;")
m("ref meta flags", P, "  std::vector<std::string> meta;\n  if (absl::GetFlag(FLAGS_timestamp)) {", "  const bool stamp = absl::GetFlag(FLAGS_timestamp);\n  std::vector<std::string> meta;\n  if (stamp) {")

# ---- C33
A = "ast.cc"
G = "geo.h"
GC = "geo.cc"
m("swap X views", A, '{"X+", geo::matrix::XP}, {"X-", geo::matrix::XN}', '{"X+", geo::matrix::XN}, {"X-", geo::matrix::XP}', "C33")
m("YN mirrored", G, "const Eigen::Matrix3d YN = ByRow(point::x, -point::z, point::y);", "const Eigen::Matrix3d YN = ByRow(-point::x, -point::z, point::y);", "C33")
m("ZN other", G, "ByRow(point::x, -point::y, -point::z);", "ByRow(-point::x, point::y, -point::z);")
m("alias name", A, '{"Z+", geo::matrix::ZP}, {"Z-"', '{"Z+", geo::matrix::ZP}, {"top", geo::matrix::ZP}, {"Z-"', "C33")
m("unknown sets default", A, "if (found == kViews.end()) return false;", "if (found == kViews.end()) {\n    *m = geo::matrix::ZP;\n    return false;\n  }", "C33")
m("unknown accepted", A, "if (found == kViews.end()) return false;", "if (found == kViews.end()) return true;", "C33")
m("prefix lookup", A, "auto found = kViews.find(s);", "auto found = kViews.find(s.substr(0, 2));", "C33")
m("ref view ifs", A, "  auto found = kViews.find(s);\n  if (found == kViews.end()) return false;\n  *m = found->second;\n  return true;",
  "  if (kViews.count(s) == 0) return false;\n  *m = kViews.at(s);\n  return true;")
m("ref view chain", A, "  auto found = kViews.find(s);\n  if (found == kViews.end()) return false;\n  *m = found->second;\n  return true;",
  "  for (const auto& v : kViews) {\n    if (v.first == s) {\n      *m = v.second;\n      return true;\n    }\n  }\n  return false;")
m("ref view if chain", A, "  auto found = kViews.find(s);\n  if (found == kViews.end()) return false;\n  *m = found->second;\n  return true;",
  "  if (s == \"X+\") {\n    *m = geo::matrix::XP;\n  } else if (s == \"X-\") {\n    *m = geo::matrix::XN;\n  } else if (s == \"Y+\") {\n    *m = geo::matrix::YP;\n  } else if (s == \"Y-\") {\n    *m = geo::matrix::YN;\n  } else if (s == \"Z+\") {\n    *m = geo::matrix::ZP;\n  } else if (s == \"Z-\") {\n    *m = geo::matrix::ZN;\n  } else {\n    return false;\n  }\n  return true;")
# ---- C34
m("order drops z", G, ": (l.y() != r.y()) ? (l.y() < r.y()) : (l.z() < r.z());", ": (l.y() < r.y());", "C34")
m("order le", G, "(l.z() < r.z());", "(l.z() <= r.z());", "C34")
m("order y twice", G, ": (l.y() != r.y()) ? (l.y() < r.y()) : (l.z() < r.z());", ": (l.y() != r.y()) ? (l.y() < r.y()) : (l.y() < r.y());", "C34")
m("order and", G, "  return (l.x() != r.x())\n             ? (l.x() < r.x())\n             : (l.y() != r.y()) ? (l.y() < r.y()) : (l.z() < r.z());", "  return l.x() < r.x() || (l.y() < r.y()) || (l.x() == r.x() && l.y() == r.y() && l.z() < r.z());", "C34")
m("order epsilon", G, "  return (l.x() != r.x())\n", "  return (std::abs(l.x() - r.x()) > 1e-9)\n", "C34")
m("line order mixes", G, "if (l.o.y() != r.o.y()) return (l.o.y() < r.o.y());", "if (l.o.y() != r.o.y()) return (l.o.y() < r.t.y());", "C34")
m("line order guard", G, "if (l.o.y() != r.o.y()) return (l.o.y() < r.o.y());", "if (l.o.y() < r.o.y()) return true;", "C34")
m("line eq ends", G, "return (l.o == r.o) && (l.t == r.t);", "return (l.o == r.o) && (l.t.x() == r.t.x());", "C34")
m("edge order first only", "stl.cc", "    if (geo::Order(r.first, l.first)) return false;\n", "", "C34")
m("edge order seconds", "stl.cc", "    return geo::Order(l.second, r.second);", "    return geo::Order(l.second, r.first);", "C34")
m("ref order if", G, "  return (l.x() != r.x())\n             ? (l.x() < r.x())\n             : (l.y() != r.y()) ? (l.y() < r.y()) : (l.z() < r.z());", "  if (l.x() < r.x()) return true;\n  if (r.x() < l.x()) return false;\n  if (l.y() < r.y()) return true;\n  if (l.y() > r.y()) return false;\n  return r.z() > l.z();")
m("ref order loop", G, "  return (l.x() != r.x())\n             ? (l.x() < r.x())\n             : (l.y() != r.y()) ? (l.y() < r.y()) : (l.z() < r.z());", "  for (int i = 0; i < 3; i++) {\n    if (l[i] != r[i]) return l[i] < r[i];\n  }\n  return false;")
m("ref order tie", G, "  return (l.x() != r.x())\n             ? (l.x() < r.x())\n             : (l.y() != r.y()) ? (l.y() < r.y()) : (l.z() < r.z());", "  return std::make_tuple(l.x(), l.y(), l.z()) < std::make_tuple(r.x(), r.y(), r.z());")
m("ref order lex", G, "  return (l.x() != r.x())\n             ? (l.x() < r.x())\n             : (l.y() != r.y()) ? (l.y() < r.y()) : (l.z() < r.z());", "  return std::lexicographical_compare(l.data(), l.data() + 3, r.data(), r.data() + 3);")
m("ref line eq", G, "return (l.o == r.o) && (l.t == r.t);", "if (l.o.x() != r.o.x() || l.o.y() != r.o.y()) return false;\n  return l.t == r.t;")
# ---- C35
m("azm sign", GC, "Eigen::RowVector3d{+0, -azm_sin, +azm_cos}", "Eigen::RowVector3d{+0, +azm_sin, +azm_cos}", "C35")
m("cos for sin", GC, "Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +ang_cos * azm_sin}", "Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +ang_sin * azm_sin}", "C35")
m("angles swapped", A, "return geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180);", "return geo::Rotate(a.y() * geo::PI / 180, a.x() * geo::PI / 180);", "C35")
m("second in radians", A, "return geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180);", "return geo::Rotate(a.x() * geo::PI / 180, a.y());", "C35")
m("degrees 360", A, "return geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180);", "return geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 360);", "C35")
m("reflection", GC, "Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +ang_cos * azm_sin}", "Eigen::RowVector3d{+ang_sin, -ang_cos * azm_cos, -ang_cos * azm_sin}", "C35")
m("order of turns", GC, "          Eigen::RowVector3d{+ang_cos, +ang_sin * azm_cos, +ang_sin * azm_sin},\n          Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +ang_cos * azm_sin},\n          Eigen::RowVector3d{+0, -azm_sin, +azm_cos})",
  "          Eigen::RowVector3d{+ang_cos, +ang_sin * azm_cos, +ang_sin * azm_sin},\n          Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +ang_cos},\n          Eigen::RowVector3d{+0, -azm_sin, +azm_cos})", "C35")
m("ref rotate product", GC, "  return (Eigen::Matrix3d{} <<\n          Eigen::RowVector3d{+ang_cos, +ang_sin * azm_cos, +ang_sin * azm_sin},\n          Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +ang_cos * azm_sin},\n          Eigen::RowVector3d{+0, -azm_sin, +azm_cos})\n      .finished();",
  "  Eigen::Matrix3d rz, rx;\n  rz << ang_cos, ang_sin, 0, -ang_sin, ang_cos, 0, 0, 0, 1;\n  rx << 1, 0, 0, 0, azm_cos, azm_sin, 0, -azm_sin, azm_cos;\n  return rz * rx;")
m("ref rotate ascii", GC, "const double azm_sin = std::sin(-azm), azm_cos = std::cos(-azm);", "const double azm_sin = -std::sin(azm), azm_cos = std::cos(azm);")
m("ref rotate entries", GC, "  return (Eigen::Matrix3d{} <<\n          Eigen::RowVector3d{+ang_cos, +ang_sin * azm_cos, +ang_sin * azm_sin},\n          Eigen::RowVector3d{-ang_sin, +ang_cos * azm_cos, +ang_cos * azm_sin},\n          Eigen::RowVector3d{+0, -azm_sin, +azm_cos})\n      .finished();",
  "  Eigen::Matrix3d r;\n  r << ang_cos, ang_sin * azm_cos, ang_sin * azm_sin,\n      -ang_sin, ang_cos * azm_cos, ang_cos * azm_sin,\n      0, -azm_sin, azm_cos;\n  return r;")
m("ref angle helper", A, "  return geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180);", "  const Eigen::RowVector2d rad = a * (geo::PI / 180);\n  return geo::Rotate(rad.x(), rad.y());")

# ---- C22 / C23
ST = "stl.cc"
m("stl no bad check", ST, "  if (in.bad()) {", "  if (false) {", "C22")
m("stl unknown line skipped", ST, "    LOG(ERROR) << line_number << \": Unknown line: '\" << line << \"'\";\n    return nullptr;", "    LOG(ERROR) << line_number << \": Unknown line: '\" << line << \"'\";", "C22")
m("stl unknown line ends", ST, "    LOG(ERROR) << line_number << \": Unknown line: '\" << line << \"'\";\n    return nullptr;", "    LOG(ERROR) << line_number << \": Unknown line: '\" << line << \"'\";\n    break;", "C22")
m("stl blank line skipped", ST, "    line_number++;\n", "    line_number++;\n    if (line.empty()) continue;\n", "C22")
m("stl stops at endsolid", ST, "      solid++;\n      continue;", "      if (solid++) break;\n      continue;", "C22")
m("stl partial match", ST, "RE2::FullMatch(line, re_oloop)", "RE2::PartialMatch(line, re_oloop)", "C22")
m("stl loop regex loose", ST, "( *(outer loop|endloop) *)", "( *(outer loop|endloop).*)", "C22")
m("stl no exponent", ST, "facet normal +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *", "facet normal +([-.0-9]+) +([-.0-9]+) +([-.0-9]+) *", "C22")
m("stl no trailing blanks", ST, "( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+) *)", "( *vertex +([-.e0-9]+) +([-.e0-9]+) +([-.e0-9]+))", "C22")
m("stl numbers unparsed", ST, "RE2::FullMatch(line, re_vertex, &x, &y, &z)", "RE2::FullMatch(line, re_vertex, &x, &y)", "C22")
m("stl skip two lines", ST, "      loop++;\n      continue;", "      loop++;\n      std::getline(in, line);\n      continue;", "C22")
m("stl solid name only", ST, "(solid|endsolid)( .*)?", "(solid|endsolid)( [a-zA-Z0-9]*)?", "C22")
m("stl points not cleared at facet", ST, "      norm = {x, y, z};\n      points.clear();", "      norm = {x, y, z};", "C23")
m("stl norm not reset", ST, "      norm = geo::point::zero;\n      points.clear();", "      points.clear();", "C23")
m("stl size at least", ST, "if (points.size() != 3) {", "if (points.size() < 3) {", "C23")
m("stl size skip", ST, "          LOG(ERROR) << line_number << \": Facet with \" << points.size()\n                     << \" vertices\";\n          return nullptr;", "          LOG(ERROR) << line_number << \": Facet with \" << points.size()\n                     << \" vertices\";\n          norm = geo::point::zero;\n          continue;", "C23")
m("stl vertex axes", ST, "points.push_back({x, y, z});", "points.push_back({x, z, y});", "C23")
m("stl vertex deduped", ST, "      points.push_back({x, y, z});", "      if (points.empty() || points.back() != Eigen::RowVector3d{x, y, z}) points.push_back({x, y, z});", "C23")
m("stl norm from vertex", ST, "ret->facets.emplace_back(norm, points);", "ret->facets.emplace_back(Eigen::RowVector3d{x, y, z}, points);", "C23")
m("stl neither reset", ST, "      norm = geo::point::zero;\n      points.clear();\n      continue;\n    }\n\n    static const auto& re_vertex", "      continue;\n    }\n\n    static const auto& re_vertex", "C23")
m("ref stl eof", ST, "  if (in.bad()) {", "  if (!in.eof()) {")
m("ref stl points kept", ST, "      norm = geo::point::zero;\n      points.clear();\n      continue;", "      norm = geo::point::zero;\n      continue;")
m("ref stl regexes", ST, "( *(solid|endsolid)( .*)?)", "( *(?:end)?solid(?: .*)?)")
mm("ref stl helper", [(ST, "std::unique_ptr<STLFile> STLFile::Make(", "static bool Ignored(const std::string& line) {\n  static const auto& a = *new RE2(R\"( *(solid|endsolid)( .*)?)\");\n  static const auto& b = *new RE2(R\"( *(outer loop|endloop) *)\");\n  return RE2::FullMatch(line, a) || RE2::FullMatch(line, b);\n}\n\nstd::unique_ptr<STLFile> STLFile::Make("),
   (ST, "    // Ignore\n", "    if (Ignored(line)) continue;\n    // Ignore\n")])
mm("ref stl in facet flag", [(ST, "  double x, y, z;\n", "  double x, y, z;\n  bool in_facet = false;\n"), (ST, "      norm = {x, y, z};\n", "      norm = {x, y, z};\n      in_facet = norm != geo::point::zero;\n"),
   (ST, "if (norm == geo::point::zero) {", "if (!in_facet) {"), (ST, "      norm = geo::point::zero;\n      points.clear();\n      continue;", "      in_facet = false;\n      points.clear();\n      continue;")])
mm("ref stl struct", [(ST, "  Eigen::RowVector3d norm = geo::point::zero;\n  std::vector<Eigen::RowVector3d> points;\n", "  struct Cur {\n    Eigen::RowVector3d norm = geo::point::zero;\n    std::vector<Eigen::RowVector3d> points;\n  } cur;\n  auto& norm = cur.norm;\n  auto& points = cur.points;\n")])
mm("ref stl ifelse", [(ST, "      solid++;\n      continue;\n    }\n", "      solid++;\n    } else {\n"), (ST, "    LOG(ERROR) << line_number << \": Unknown line: '\" << line << \"'\";\n    return nullptr;\n", "    LOG(ERROR) << line_number << \": Unknown line: '\" << line << \"'\";\n    return nullptr;\n    }\n")])
m("ref stl for loop", ST, "  while (std::getline(in, line)) {", "  for (;;) {\n    std::getline(in, line);\n    if (in.fail()) break;")
m("ref stl lazy", ST, "    static const auto& re_solid = *new RE2(R\"( *(solid|endsolid)( .*)?)\");\n    if (RE2::FullMatch(line, re_solid)) {", "    static constexpr LazyRE2 re_solid = {R\"( *(solid|endsolid)( .*)?)\"};\n    if (RE2::FullMatch(line, *re_solid)) {")
m("ref stl static re", ST, "    static const auto& re_solid = *new RE2(R\"( *(solid|endsolid)( .*)?)\");\n", "    static const RE2 re_solid(R\"( *(solid|endsolid)( .*)?)\");\n")
m("ref stl const char", ST, "    static const auto& re_solid = *new RE2(R\"( *(solid|endsolid)( .*)?)\");\n", "    static constexpr char re_solid[] = R\"( *(solid|endsolid)( .*)?)\";\n")
mm("ref stl points array", [(ST, "  std::vector<Eigen::RowVector3d> points;\n  double x, y, z;", "  std::array<Eigen::RowVector3d, 3> pts;\n  int npoints = 0;\n  double x, y, z;"), (ST, "      points.clear();\n", "      npoints = 0;\n"), (ST, "if (points.size() != 3) {", "if (npoints != 3) {"),
  (ST, "points.size()\n", "npoints\n"), (ST, "emplace_back(norm, points)", "emplace_back(norm, std::vector<Eigen::RowVector3d>(pts.begin(), pts.end()))"), (ST, "      norm = geo::point::zero;\n      points.clear();\n", "      norm = geo::point::zero;\n      npoints = 0;\n"), (ST, "      points.push_back({x, y, z});", "      if (npoints < 3) pts[npoints] = {x, y, z};\n      npoints++;")])

# ---- C44
FN = "    : norm((e[1] - e[0]).cross(e[2] - e[0]).normalized()),"
FS = "    swap(edge[0], edge[2]);\n    norm = norm * -1;"
FR = "  r = (norm.dot(edge[0]) + norm.dot(edge[1]) + norm.dot(edge[2])) / 3;"
m("facet not normalized", ST, FN, "    : norm((e[1] - e[0]).cross(e[2] - e[0])),", "C44")
m("facet corners not swapped", ST, FS, "    norm = norm * -1;", "C44")
m("facet normal not negated", ST, FS, "    swap(edge[0], edge[2]);", "C44")
m("facet sign inverted", ST, "  if (n.dot(norm) < 0) {", "  if (n.dot(norm) > 0) {", "C44")
m("facet sign of z only", ST, "  if (n.dot(norm) < 0) {", "  if (n.z() * norm.z() < 0) {", "C44")
m("facet cross of corners", ST, FN, "    : norm((e[1] - e[0]).cross(e[2]).normalized()),", "C44")
m("facet r over two", ST, FR, FR.replace("/ 3", "/ 2"), "C44")
m("facet r missing term", ST, FR, "  r = (norm.dot(edge[0]) + norm.dot(edge[1]) + norm.dot(edge[1])) / 2 + norm.dot(edge[0]);", "C44")
m("facet uses file normal", ST, FN, "    : norm(n.normalized()),", "C44")
m("facet r before swap", ST, FS, "    swap(edge[0], edge[2]);\n    r = norm.dot(edge[0]);\n    norm = norm * -1;\n    return;", "C44")
m("facet swap is copy", ST, FS, "    edge[0] = edge[2];\n    edge[2] = edge[0];\n    norm = norm * -1;", "C44")
m("facet dup corner", ST, "      edge{e[0], e[1], e[2]} {", "      edge{e[0], e[1], e[1]} {", "C44")
m("ref facet r one corner", ST, FR, "  r = norm.dot(edge[0]);")
m("ref facet other sides", ST, FN, "    : norm((e[2] - e[1]).cross(e[0] - e[1]).normalized()),")
m("ref facet swaps 1 2", ST, FS, "    swap(edge[1], edge[2]);\n    norm *= -1;")
m("ref facet unary minus", ST, FS, "    swap(edge[0], edge[2]);\n    norm = -norm;")
m("ref facet dot order", ST, "  if (n.dot(norm) < 0) {", "  const bool flipped = norm.dot(n) < 0;\n  if (flipped) {")
m("ref facet loop", ST, FR, "  r = 0;\n  for (const auto& c : edge) r += norm.dot(c);\n  r /= 3;")
m("ref facet recompute", ST, FS, "    swap(edge[0], edge[2]);\n    norm = (edge[1] - edge[0]).cross(edge[2] - edge[0]).normalized();")
m("stl size check dropped", ST, "        if (points.size() != 3) {", "        if (points.empty()) {", "C23")

# ---- C26
LX = "lexer.l"
m("lex id no digits", LX, "[a-zA-Z_][a-zA-Z0-9_]*  ", "[a-zA-Z_][a-zA-Z_]*  ", "C26")
m("lex id dash", LX, "[a-zA-Z_][a-zA-Z0-9_]*  ", "[a-zA-Z_][-a-zA-Z0-9_]*  ", "C26")
m("lex num no sign", LX, "[-+]?[0-9]+(\\.[0-9]*)?", "[-]?[0-9]+(\\.[0-9]*)?", "C26")
m("lex num no trailing dot", LX, "[-+]?[0-9]+(\\.[0-9]*)?", "[-+]?[0-9]+(\\.[0-9]+)?", "C26")
m("lex num exponent", LX, "[-+]?[0-9]+(\\.[0-9]*)?", "[-+]?[0-9]+(\\.[0-9]*)?(e[0-9]+)?", "C26")
m("lex num sign twice", LX, "[-+]?\\.[0-9]+ ", "[-+]*\\.[0-9]+ ", "C26")
m("lex string newline", LX, "[^\"\\\\\\n]", "[^\"\\\\]", "C26")
m("lex string greedy", LX, "\\\"([^\"\\\\\\n]|\\\\['\"?\\\\n])*\\\"", "\\\"([^\\\\\\n]|\\\\['\"?\\\\n])*\\\"", "C26")
m("lex string escape t", LX, "['\"?\\\\n])*", "['\"?\\\\nt])*", "C26")
m("lex keyword after id", LX, "text  return T::TEXT;\n\n[a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }",
  "[a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }\ntext  return T::TEXT;", "C26")
m("lex case insensitive", LX, "%option prefix=\"stl2ps\"", "%option prefix=\"stl2ps\" case-insensitive", "C26")
m("lex bad char skipped", LX, ".      { stl2pserror(yyscanner); return 256; }", ".      { stl2pserror(yyscanner); }", "C26")
m("lex bad char silent", LX, ".      { stl2pserror(yyscanner); return 256; }", ".      ;", "C26")
m("lex high bytes skipped", LX, "[ \\t\\n\\r]    ;", "[ \\t\\n\\r\\xa0]    ;", "C26")
m("lex no cr", LX, "[ \\t\\n\\r]    ;", "[ \\t\\n]    ;", "C26")
m("lex hash comment", LX, "\\/\\/.*      ;", "(\\/\\/|#).*      ;", "C26")
m("lex comment eats newline and rest", LX, "\\/\\/.*      ;", "\\/\\/(.|\\\\\\n)*      ;", "C26")
m("lex string cut at nul", LX, "std::string(yytext, yyleng)", "std::string(yytext)", "C26")
m("lex number int", LX, "std::strtof(text, nullptr)", "std::strtol(text, nullptr, 10)", "C26")
m("lex wrong keyword", LX, "dia   return T::DIA;", "dia   return T::DIM;", "C26")
m("lex swapped keywords", LX, "dia   return T::DIA;\ndim   return T::DIM;", "dia   return T::DIM;\ndim   return T::DIA;", "C26")
m("lex id lower bound", LX, "new std::string(yytext);  return T::ID", "new std::string(yytext, yyleng > 31 ? 31 : yyleng);  return T::ID", "C26")
m("lex range error passes", LX, "  return std::isfinite(*value);", "  return *value == *value;")
m("lex eof restart", LX, "wrap(stl2psscan_t scanner) { return 1; }", "wrap(stl2psscan_t scanner) { return 0; }", "C26")
m("ref lex blanks together", LX, "[ \\t\\n\\r]    ;", "[ \\t\\n\\r]+    ;")
m("ref lex comment with newline", LX, "\\/\\/.*      ;", "\\/\\/.*\\n?      ;")
m("ref lex definitions", LX, "%%\n\\{  return '{';", "DIGIT [0-9]\n%%\n\\{  return '{';")
m("ref lex one number rule", LX, "[-+]?[0-9]+(\\.[0-9]*)?      {", "[-+]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+)      {")
m("ref lex punct by text", LX, "\\{  return '{';\n\\}  return '}';\n", "[{}]  return yytext[0];\n")
m("ref lex char class", LX, "=   return '=';\n;   return ';';\n:   return ':';\n,   return ',';\n", "[=;:,]  { return *yytext; }\n")
m("ref lex blank split", LX, "[ \\t\\n\\r]    ;", "[ \\t]    ;\n\\n        ;\n\\r        ;")
m("ref lex bounded id", LX, "new std::string(yytext);  return T::ID", "new std::string(yytext, yyleng);  return T::ID")

PY = "parser.y"
m("gram trailing comma", PY, "          | arg                { ($$ = new stl2ps::MetaList)->emplace_back($1); }", "          | dim_parts ','      { $$ = $1; }\n          | arg                { ($$ = new stl2ps::MetaList)->emplace_back($1); }", "C27")
m("gram comma optional", PY, "dim_parts : dim_parts ',' arg  { ($$ = $1)->emplace_back($3); }", "dim_parts : dim_parts ',' arg  { ($$ = $1)->emplace_back($3); }\n          | dim_parts arg      { ($$ = $1)->emplace_back($2); }", "C27")
m("gram several sources", PY, "model : LOAD ID '=' STRING_LIT ';'", "model : LOAD ID '=' string_lit ';'", "C27")
m("gram one literal", PY, "string_lit : string_lit STRING_LIT   { *($$ = $1) += *$2; delete $2; }\n           | STRING_LIT  ", "string_lit : STRING_LIT  ", "C27")
m("gram no nesting", PY, "      | ID '(' point ')' { $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1); }",
  "      | ID '(' '[' NUM ',' NUM ',' NUM ']' ')' { $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique(new stl2ps::Val({$4, $6, $8}, @3)), @1); }", "C27")
m("gram nesting to depth two", PY, "      | ID '(' point ')' { $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1); }",
  "      | ID '(' point2 ')' { $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1); }\n      ;\n%type <point> point2;\npoint2 : '[' NUM ',' NUM ',' NUM ']' { $$ = new stl2ps::Val({$2, $4, $6}, @1); }\n      | ID '(' '[' NUM ',' NUM ',' NUM ']' ')' { $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique(new stl2ps::Val({$4, $6, $8}, @3)), @1); }", "C27")
m("gram recovery", PY, "           | page_parts DRAW ID", "           | page_parts error ';' { $$ = $1; }\n           | page_parts DRAW ID", "C27")
m("gram accept early", PY, "      | input page   { ($$ = $1)->Add(absl::WrapUnique($2)); }", "      | input page   { ($$ = $1)->Add(absl::WrapUnique($2)); if ($1->pages.size() > 99) YYACCEPT; }", "C27")
m("gram location refused", PY, "location : '[' NUM ',' NUM ']' { $$ =", "location : '[' NUM ',' NUM ']' { if (!($2 <= 1e6f)) YYERROR; $$ =", "C27")
m("gram ambiguous literal", PY, "string_lit : string_lit STRING_LIT   { *($$ = $1) += *$2; delete $2; }", "string_lit : string_lit string_lit   { *($$ = $1) += *$2; delete $2; }", "C27")
m("gram ratio of three", PY, "    | '@' location\n", "    | ID '=' NUM ':' NUM ':' NUM { $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release(); }\n    | '@' location\n", "C27")
m("gram not empty", PY, "      |              { $$ = result; }\n", "      | model        { ($$ = result)->Add(absl::WrapUnique($1)); }\n", "C27")
m("gram semicolon after page", PY, "page : PAGE '{' page_parts '}'  {", "page : PAGE '{' page_parts '}' ';' {", "C27")
m("gram no args in rad", PY, "           | draw_parts RAD '(' dim_parts ')' ';'\n                {\n                  ($$ = $1)->dims.emplace_back(absl::make_unique<stl2ps::Rad>(@2, std::move(*$4)));\n                  delete $4;\n                }\n", "", "C27")
m("gram text parts once", PY, "text_parts : text_parts arg ';'\n                { ($$ = $1)->emplace_back($2); }\n", "text_parts : arg ';'\n                { ($$ = new stl2ps::MetaList)->emplace_back($1); }\n", "C27")
m("gram at anything", PY, "    | '@' location\n         {", "    | '@' point\n         { $$ = Meta::New<stl2ps::Point>(\"@\", $2, @1).release(); }\n    | '@' location\n         {", "C27")
m("gram keyword as name", PY, "arg : ID '=' string_lit\n", "arg : TEXT '=' string_lit { $$ = Meta::New<std::string>(\"text\", $3, @1).release(); }\n    | ID '=' string_lit\n", "C27")
m("gram nested page", PY, "           | page_parts DRAW ID", "           | page_parts page { $$ = $1; delete $2; }\n           | page_parts DRAW ID", "C27")
m("ref gram point split", PY, "point : '[' NUM ',' NUM ',' NUM ']' { $$ = new stl2ps::Val({$2, $4, $6}, @1); }\n      | ID '(' point ')' {", "%type <point> call;\npoint : '[' NUM ',' NUM ',' NUM ']' { $$ = new stl2ps::Val({$2, $4, $6}, @1); }\n      | call { $$ = $1; }\n      ;\ncall  : ID '(' point ')' {")
mm("ref gram args", [(PY, "           | draw_parts ANGLE '(' ')' ';'\n                {\n                  ($$ = $1)->dims.emplace_back(\n                      absl::make_unique<stl2ps::Angle>(@2));\n                }\n           | draw_parts ANGLE '(' dim_parts ')' ';'\n                {\n                  ($$ = $1)->dims.emplace_back(absl::make_unique<stl2ps::Angle>(@2, std::move(*$4)));\n                  delete $4;\n                }\n",
  "           | draw_parts ANGLE args ';'\n                {\n                  ($$ = $1)->dims.emplace_back(absl::make_unique<stl2ps::Angle>(@2, std::move(*$3)));\n                  delete $3;\n                }\n"),
  (PY, "dim_parts : dim_parts", "%type <meta_list> args;\nargs : '(' ')' { $$ = new stl2ps::MetaList; }\n     | '(' dim_parts ')' { $$ = $2; }\n     ;\n\ndim_parts : dim_parts")])
m("build swapped location", PY, "new Eigen::RowVector2d{$2, $4}", "new Eigen::RowVector2d{$4, $2}", "C28")
m("build z dropped", PY, "new stl2ps::Val({$2, $4, $6}, @1)", "new stl2ps::Val({$2, $4, 0}, @1)", "C28")
m("build point negated", PY, "new stl2ps::Val({$2, $4, $6}, @1)", "new stl2ps::Val({$2, $4, fabs($6)}, @1)", "C28")
m("build nested dropped", PY, "$$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1);", "if ($1->size() > 12) { delete $1; $$ = $3; } else $$ = new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1);", "C28")
m("build model swapped", PY, "absl::WrapUnique($2), absl::WrapUnique($4), @1); }\n      ;\n\npage", "absl::WrapUnique($4), absl::WrapUnique($2), @1); }\n      ;\n\npage", "C28")
m("build ast model swapped", "ast.h", "NodeI(std::move(l)), name(std::move(n)), source(std::move(s)) {}", "NodeI(std::move(l)), name(std::move(s)), source(std::move(n)) {}", "C28")
m("build string reversed", PY, "{ *($$ = $1) += *$2; delete $2; }", "{ *($$ = $2) += *$1; delete $1; }", "C28")
m("build string space", PY, "{ *($$ = $1) += *$2; delete $2; }", "{ *($$ = $1) += *$2; $$->push_back(' '); delete $2; }", "C28")
m("build ratio swapped", PY, "Scale{$3, $5}", "Scale{$5, $3}", "C28")
m("build ratio truncated", PY, "  return f >= 1 && f <= 1e9f && f == static_cast<int>(f);", "  return f >= 1 && f <= 1e9f;", "C28")
m("build at name", PY, "(\"@\", $2, @1)", "(\"at\", $2, @1)", "C28")
m("build number as int", PY, "Meta::New<float>($1, $3, @1)", "Meta::New<float>($1, static_cast<int>($3), @1)", "C28")
m("build arg prepended", PY, "{ ($$ = $1)->meta.emplace_back($2); }", "{ ($$ = $1)->meta.emplace($1->meta.begin(), $2); }", "C28")
m("build draw prepended", PY, "($$ = $1)->draws.emplace_back(absl::make_unique<stl2ps::Draw>(@3, absl::WrapUnique($3), absl::WrapUnique($5)));",
  "($$ = $1)->draws.emplace($1->draws.begin(), absl::make_unique<stl2ps::Draw>(@3, absl::WrapUnique($3), absl::WrapUnique($5)));", "C28")
m("build text loses properties", PY, "absl::make_unique<stl2ps::Text>(@2, absl::WrapUnique($4), absl::WrapUnique($7))", "absl::make_unique<stl2ps::Text>(@2, absl::WrapUnique($4), absl::make_unique<stl2ps::MetaList>())); delete ($7", "C28")
m("build dim loses properties", PY, "absl::make_unique<stl2ps::Dia>(@2, std::move(*$4))", "absl::make_unique<stl2ps::Dia>(@2)", "C28")
m("build rad is dia", PY, "absl::make_unique<stl2ps::Rad>(std::move(@2))", "absl::make_unique<stl2ps::Dia>(@2)", "C28")
m("build dims once", PY, "                  ($$ = $1)->dims.emplace_back(\n                      absl::make_unique<stl2ps::Angle>(@2));", "                  $$ = $1; if ($1->dims.empty()) $1->dims.emplace_back(\n                      absl::make_unique<stl2ps::Angle>(@2));", "C28")
m("build page loses draws", "ast.h", "        meta(std::move(p->meta)),\n        draws(std::move(p->draws)) {}", "        meta(std::move(p->meta)) {}", "C28")
m("build draw loses dims", "ast.h", "        name(std::move(*n)),\n        dims(std::move(dl->dims)) {}", "        name(std::move(*n)) {}", "C28")
m("build draw properties lost", "ast.h", "  Draw(Loc l, std::unique_ptr<std::string> n, std::unique_ptr<DrawList> dl)\n      : Drawable(std::move(l), std::move(dl->meta_list)),", "  Draw(Loc l, std::unique_ptr<std::string> n, std::unique_ptr<DrawList> dl)\n      : Drawable(std::move(l)),", "C28")
m("build document front", "ast.cc", "  pages.emplace_back(std::move(*p));", "  pages.emplace(pages.begin(), std::move(*p));", "C28")
m("build models replaced", "ast.cc", "  models.emplace_back(std::move(*m));", "  for (auto& o : models) if (o.name == m->name) { o = std::move(*m); return; }\n  models.emplace_back(std::move(*m));", "C28")
m("build dim arg order", PY, "dim_parts : dim_parts ',' arg  { ($$ = $1)->emplace_back($3); }", "dim_parts : dim_parts ',' arg  { ($$ = $1)->insert($1->begin(), std::unique_ptr<Meta>($3)); }", "C28")
m("build name from value", "ast.h", "new MetaValue<T>(std::move(loc), Take<std::string>(std::move(name)),", "new MetaValue<T>(loc, Take<std::string>(std::move(name)) + loc.filename,", "C28")
m("ref build temporaries", PY, "{ ($$ = $1)->meta.emplace_back($2); }", "{ $$ = $1; std::unique_ptr<Meta> m($2); $1->meta.push_back(std::move(m)); }")
m("ref build location lines", PY, "{ $$ = new Eigen::RowVector2d{$2, $4}; }", "{ auto* l = new Eigen::RowVector2d; *l = {$2, $4}; $$ = l; }")
m("ref build string append", PY, "{ *($$ = $1) += *$2; delete $2; }", "{ $1->append(*$2); delete $2; $$ = $1; }")
m("ref build string smart", PY, "{ *($$ = $1) += *$2; delete $2; }", "{ auto tail = absl::WrapUnique($2); *$1 += *tail; $$ = $1; }")
m("ref build right recursive", PY, "text_parts : text_parts arg ';'\n                { ($$ = $1)->emplace_back($2); }", "text_parts : arg ';' text_parts\n                { ($$ = $3)->emplace($3->begin(), $1); }")
m("ref build model in input", PY, "input : input model  { ($$ = $1)->Add(absl::WrapUnique($2)); }", "input : input LOAD ID '=' STRING_LIT ';' { $$ = $1; $1->Add(absl::make_unique<stl2ps::Model>(std::move(*$3), std::move(*$5), @2)); delete $3; delete $5; }")
mm("ref build parts are a page", [(PY, "  stl2ps::PageParts*  page_parts;\n", ""), (PY, "%type <page_parts> page_parts;", "%type <page> page_parts;"),
   (PY, "$$ = new stl2ps::PageParts;", "$$ = new stl2ps::Page(stl2ps::Loc(), absl::make_unique<stl2ps::PageParts>());"),
   (PY, "{ $$ = new stl2ps::Page(@1, absl::WrapUnique($3)); }", "{ auto p = absl::make_unique<stl2ps::PageParts>(); p->meta = std::move($3->meta); p->draws = std::move($3->draws); delete $3; $$ = new stl2ps::Page(@1, std::move(p)); }")])

# ---- C29
m("own string lit leak", PY, "{ *($$ = $1) += *$2; delete $2; }", "{ *($$ = $1) += *$2; if ($2->size()) delete $2; }", "C29")
m("own string lit leak always", PY, "{ *($$ = $1) += *$2; delete $2; }", "{ *($$ = $1) += *$2; }", "C29")
m("own use after delete", PY, "{ *($$ = $1) += *$2; delete $2; }", "{ $$ = $1; std::string* t = $2; delete $2; *$$ += *t; }", "C29")
m("own dims leak", PY, "absl::make_unique<stl2ps::Dia>(@2, std::move(*$4)));\n                  delete $4;", "absl::make_unique<stl2ps::Dia>(@2, std::move(*$4)));", "C29")
m("own dims double", PY, "absl::make_unique<stl2ps::Dia>(@2, std::move(*$4)));\n                  delete $4;", "absl::make_unique<stl2ps::Dia>(@2, std::move(*absl::WrapUnique($4))));\n                  delete $4;", "C29")
m("own ratio reject leaks name", PY, "             delete $1;\n             YYERROR;", "             YYERROR;", "C29")
m("own meta keeps ownership", PY, "{ $$ = Meta::New<std::string>($1, $3, @1).release(); }", "{ $$ = Meta::New<std::string>($1, $3, @1).get(); }", "C29")
m("own no destructor for location", PY, "%destructor {  } <fp> <doc>;", "%destructor {  } <fp> <doc> <location>;", "C29")
m("own destructor deletes doc", PY, "%destructor {  } <fp> <doc>;", "%destructor {  } <fp>;", "C29")
m("own destructor none", PY, "%destructor { delete $$; } <*>;", "", "C29")
m("own destructor only str", PY, "%destructor { delete $$; } <*>;", "%destructor { delete $$; } <str> <point> <meta> <model> <page> <page_parts> <draw>;", "C29")
m("own doc adopted", PY, "input : input model  { ($$ = $1)->Add(absl::WrapUnique($2)); }", "input : input model  { auto d = absl::WrapUnique($1); d->Add(absl::WrapUnique($2)); $$ = d.get(); }", "C29")
mm("own ref no smart", [("ast.h", "  std::unique_ptr<T> value;\n};", "  T* value;\n};"), ("ast.h", "return value.get(); }", "return value; }")], "C29")
m("own take copies", "ast.h", "    return std::move(*std::unique_ptr<T>(t));", "    return *t;", "C29")
m("own point name leak", PY, "new PointFunc(absl::WrapUnique($1), absl::WrapUnique($3), @1)", "new PointFunc(absl::make_unique<std::string>(*$1), absl::WrapUnique($3), @1)", "C29")
m("own virtual", "ast.h", "  virtual ~Meta() = default;", "  ~Meta() = default;", "C29")
mm("own virtual drawable", [("ast.h", "      : NodeI(std::move(loc)), meta_list(std::move(l)){};\n  virtual ~Drawable() = default;", "      : NodeI(std::move(loc)), meta_list(std::move(l)){};"), ("ast.h", "  virtual ~BaseDim() = default;\n", "")], "C29")
m("own bad token object", LX, "return T::NUM; }\n[-+]?\\.", "yylval_param->str = new std::string(yytext); return T::NUM; }\n[-+]?\\.", "C29")
m("own skipped string", LX, "[ \\t\\n\\r]    ;", "[ \\t\\n\\r]    ;\n#[a-z]*    { auto* s = new std::string(yytext); if (s->size() > 100) return 256; delete s; }", "C29")
m("own id shared", LX, "{ yylval_param->str = new std::string(yytext);  return T::ID; }", "{ static std::string last; last = yytext; yylval_param->str = &last;  return T::ID; }", "C29")
m("own id not stored", LX, "{ yylval_param->str = new std::string(yytext);  return T::ID; }", "{ if (yyleng < 64) yylval_param->str = new std::string(yytext);  return T::ID; }", "C29")
m("own arg reject at action", PY, "    | ID '=' location\n         {", "    | ID '=' location\n         { if ($3->norm() > 1e9) { delete $3; YYERROR; }", "C29")
m("own return from action", PY, "             delete $1;\n             YYERROR;", "             delete $1;\n             return 1;", "C29")
m("ref own smart first", PY, "           if (!IsScale($3) || !IsScale($5)) {\n             error(@3, \"scale must be a ratio of positive integers\");\n             delete $1;\n             YYERROR;\n           }\n           $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release();",
  "           std::unique_ptr<std::string> name($1);\n           if (!IsScale($3) || !IsScale($5)) {\n             error(@3, \"scale must be a ratio of positive integers\");\n             YYERROR;\n           }\n           $$ = Meta::New<Scale>(*name, Scale{$3, $5}, @1).release();")
m("ref own dims smart", PY, "($$ = $1)->dims.emplace_back(absl::make_unique<stl2ps::Dia>(@2, std::move(*$4)));\n                  delete $4;", "auto parts = absl::WrapUnique($4);\n ($$ = $1)->dims.emplace_back(absl::make_unique<stl2ps::Dia>(@2, std::move(*parts)));")
m("ref own destructors listed", PY, "%destructor { delete $$; } <*>;", "%destructor { delete $$; } <str> <point> <meta> <model> <page> <page_parts> <draw> <meta_list> <location>;")
m("ref own local smart", PY, "{ ($$ = $1)->meta.emplace_back($2); }", "{ std::unique_ptr<Meta> m($2); $$ = $1; $$->meta.emplace_back(std::move(m)); }")
m("ref own release", PY, "{ ($$ = $1)->meta.emplace_back($2); }", "{ std::unique_ptr<Meta> m($2); $$ = $1; $$->meta.emplace_back(m.release()); }")
m("ref own reset", PY, "{ ($$ = $1)->meta.emplace_back($2); }", "{ $1->meta.emplace_back(); $1->meta.back().reset($2); $$ = $1; }")
m("ref own take moved out", "ast.h", "    return std::move(*std::unique_ptr<T>(t));", "    T v = std::move(*t);\n    delete t;\n    return v;")

# ---- C30
PC = "parser.cc"
m("scan c string", PC, "stl2ps_scan_bytes(file.data(), file.size(), scanner)", "stl2ps_scan_string(file.c_str(), scanner)", "C30")
m("scan one less", PC, "file.size(), scanner)", "file.size() - 1, scanner)", "C30")
m("scan strlen", PC, "file.size(), scanner)", "strlen(file.c_str()), scanner)", "C30")
m("scan file name", PC, "(file.data(), file.size(), scanner)", "(filename.data(), filename.size(), scanner)", "C30")
m("scan line 0", PC, "set_lineno(1, scanner)", "set_lineno(0, scanner)", "C30")
m("scan no line", PC, "  stl2psset_lineno(1, scanner);\n", "", "C30")
m("scan no column", PC, "  stl2psset_column(0, scanner);\n", "", "C30")
m("scan line before buffer", PC, "  auto buffer_state = stl2ps_scan_bytes(file.data(), file.size(), scanner);\n  stl2psset_lineno(1, scanner);\n", "  stl2psset_lineno(1, scanner);\n  auto buffer_state = stl2ps_scan_bytes(file.data(), file.size(), scanner);\n", "C30")
m("scan no extra", PC, "  stl2psset_extra(&extra, scanner);\n", "", "C30")
m("scan no filename", PC, "  extra.filename = &filename;\n", "", "C30")
m("scan no destroy", PC, "  stl2pslex_destroy(scanner);\n", "", "C30")
m("scan destroy on success", PC, "  stl2ps_delete_buffer(buffer_state, scanner);\n", "  if (ret != 0) return ret;\n  stl2ps_delete_buffer(buffer_state, scanner);\n", "C30")
m("scan delete after destroy", PC, "  stl2ps_delete_buffer(buffer_state, scanner);\n  stl2pslex_destroy(scanner);\n", "  stl2pslex_destroy(scanner);\n  stl2ps_delete_buffer(buffer_state, scanner);\n", "C30")
m("scan double delete", PC, "  stl2pslex_destroy(scanner);\n", "  stl2ps_delete_buffer(buffer_state, scanner);\n  stl2pslex_destroy(scanner);\n", "C30")
m("scan static", PC, "  stl2psscan_t scanner;\n  stl2pslex_init(&scanner);\n", "  static stl2psscan_t scanner = nullptr;\n  if (!scanner) stl2pslex_init(&scanner);\n", "C30")
m("scan result dropped", PC, "    ret = p.parse();", "    ret = 0;\n    p.parse();", "C30")
m("scan result inverted", PC, "  return ret;\n}\n\n}  // namespace", "  return ret == 0;\n}\n\n}  // namespace", "C30")
m("scan empty accepted", PC, "  parser_support::ScannerExtra extra;\n", "  if (file.empty()) return 0;\n  parser_support::ScannerExtra extra;\n", "C30")
m("scan twice", PC, "    ret = p.parse();", "    ret = p.parse();\n    if (ret != 0) ret = p.parse();", "C30")
m("scan other doc", PC, "parser p{scanner, doc, &extra};", "parser p{scanner, new stl2ps::Document, &extra};", "C30")
m("scan name moved", PC, "  extra.filename = &filename;\n", "  std::string name = std::move(filename);\n  extra.filename = &filename;\n", "C30")
m("scan token dropped", PC, "  return stl2pslex_inner(stype, loc, scanner);", "  int t = stl2pslex_inner(stype, loc, scanner);\n  if (t == 59) t = stl2pslex_inner(stype, loc, scanner);\n  return t;", "C30")
m("scan token 256", PC, "  return stl2pslex_inner(stype, loc, scanner);", "  int t = stl2pslex_inner(stype, loc, scanner);\n  return t == 256 ? 0 : t;", "C30")
m("ref scan token local", PC, "  return stl2pslex_inner(stype, loc, scanner);", "  const int t = stl2pslex_inner(stype, loc, scanner);\n  return t;")
m("ref scan no delete", PC, "  stl2ps_delete_buffer(buffer_state, scanner);\n", "  (void)buffer_state;\n")
m("ref scan extra first", PC, "  auto buffer_state = stl2ps_scan_bytes(file.data(), file.size(), scanner);\n  stl2psset_lineno(1, scanner);\n  stl2psset_column(0, scanner);\n  stl2psset_extra(&extra, scanner);\n", "  stl2psset_extra(&extra, scanner);\n  auto buffer_state = stl2ps_scan_bytes(file.data(), file.size(), scanner);\n  stl2psset_column(0, scanner);\n  stl2psset_lineno(1, scanner);\n")
m("ref scan init extra", PC, "  stl2pslex_init(&scanner);\n", "  if (stl2pslex_init_extra(&extra, &scanner) != 0) return 1;\n")
mm("ref scan raii", [(PC, "namespace stl2ps {\n\nint Parse", "namespace stl2ps {\nnamespace {\nstruct Scanner {\n  Scanner() { stl2pslex_init(&s); }\n  ~Scanner() { stl2pslex_destroy(s); }\n  stl2psscan_t s;\n};\n}\nint Parse"),
   (PC, "  stl2psscan_t scanner;\n  stl2pslex_init(&scanner);\n", "  Scanner owner;\n  auto scanner = owner.s;\n"), (PC, "  stl2pslex_destroy(scanner);\n", "")])
mm("ref scan helper", [(PC, "namespace stl2ps {\n\nint Parse", "namespace stl2ps {\nnamespace {\nint Run(stl2psscan_t scanner, Document* doc, parser_support::ScannerExtra* extra) {\n  stl2ps_parser::parser p{scanner, doc, extra};\n  return p.parse();\n}\n}\nint Parse"),
   (PC, "  int ret;\n  {\n    stl2ps_parser::parser p{scanner, doc, &extra};\n", "  int ret = Run(scanner, doc, &extra);\n#if 0\n"), (PC, "    ret = p.parse();\n  }\n", "#endif\n"), (PC, "#if defined(YYDEBUG) && YYDEBUG\n    p.set_debug_level(absl::GetFlag(FLAGS_parser_debug));\n    p.set_debug_stream(std::cout);\n#endif\n", "")])
m("scan result swallowed", PC, "  return ret;\n}\n\n}  // namespace", "  if (ret == 2) return 0;\n  return ret;\n}\n\n}  // namespace", "C30")
m("ref scan result branch", PC, "  return ret;\n}\n\n}  // namespace", "  if (ret != 0) return 1;\n  return 0;\n}\n\n}  // namespace")

# ---- C31
m("place arg value", "parser.y", "Meta::New<float>($1, $3, @1)", "Meta::New<float>($1, $3, @3)", "C31")
m("place arg default", "parser.y", "Meta::New<stl2ps::Point>($1, $3, @1)", "Meta::New<stl2ps::Point>($1, $3, stl2ps::Loc())", "C31")
m("place draw at list", "parser.y", "absl::make_unique<stl2ps::Draw>(@3,", "absl::make_unique<stl2ps::Draw>(@$,", "C31")
m("place text at body", "parser.y", "absl::make_unique<stl2ps::Text>(@2,", "absl::make_unique<stl2ps::Text>(@7,", "C31")
m("place page at parts", "parser.y", "new stl2ps::Page(@1,", "new stl2ps::Page(@3,", "C31")
m("place model at source", "parser.y", "absl::WrapUnique($4), @1)", "absl::WrapUnique($4), @4)", "C31")
m("place inner point", "parser.y", "absl::WrapUnique($3), @1)", "absl::WrapUnique($3), @3)", "C31")
m("place dim at close", "parser.y", "absl::make_unique<stl2ps::Dia>(@2, std", "absl::make_unique<stl2ps::Dia>(@5, std", "C31")
m("place end of list", "ast.h", "Loc(L l) : filename(*l.begin.filename), line(l.begin.line) {}", "Loc(L l) : filename(*l.begin.filename), line(l.begin.column) {}", "C31")
m("place scanner stale", "lexer.l", "    loc->begin.line = loc->end.line = line;          \\", "    loc->end.line = line;                            \\", "C31")
m("place scanner minus one", "lexer.l", "    loc->begin.line = loc->end.line = line;          \\", "    loc->begin.line = loc->end.line = line - 1;      \\", "C31")
m("place no yylineno", "lexer.l", "%option reentrant bison-bridge yylineno bison-locations", "%option reentrant bison-bridge bison-locations", "C31")
m("place clone inner", "ast.h", "p_->Clone(), location()));", "p_->Clone(), p_->location()));", "C31")
m("place clone none", "ast.h", "p_->Clone(), location()));", "p_->Clone(), Loc()));", "C31")
m("place duplicate at construct", "stl-to-ps.cc", "SYM_ERROR(*i) << \"Duplicate \"", "SYM_ERROR(*seen->begin()->second) << \"Duplicate \"", "C31")
m("place duplicate at first", "stl-to-ps.cc", "SYM_ERROR(*i) << \"Duplicate \"", "SYM_ERROR(*seen->at(i->name)) << \"Duplicate \"", "C31")
m("place fmt at construct", "stl-to-ps.cc", "      SYM_ERROR(*p_fmt) << \"fmt argument for rad is the wrong type\";", "      SYM_ERROR(rad) << \"fmt argument for rad is the wrong type\";", "C31")
m("place fmt invalid at construct", "stl-to-ps.cc", "      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for dia: must be a '%f' type\";", "      SYM_ERROR(dia) << \"Invalid fmt argument for dia: must be a '%f' type\";", "C31")
m("place scale at draw", "stl-to-ps.cc", "SYM_ERROR(*s) << \"Wrong type for scale\";", "SYM_ERROR(draw) << \"Wrong type for scale\";", "C31")
m("place view at draw", "stl-to-ps.cc", "SYM_ERROR(*view) << \"Unknown view name: '\"", "SYM_ERROR(draw) << \"Unknown view name: '\"", "C31")
m("place both swapped", "stl-to-ps.cc", "SYM_ERROR(*p_to_dir) << \"Both 'to_{dir,point}' provided\";", "SYM_ERROR(*p_from_dir) << \"Both 'to_{dir,point}' provided\";", "C31")
m("place dir at from", "stl-to-ps.cc", "SYM_ERROR(*p_dir) << \"Dimention's 'dir'", "SYM_ERROR(*p_from) << \"Dimention's 'dir'", "C31")
m("place unexpected at construct", "stl-to-ps.cc", "    SYM_ERROR(rad) << \"Unexepcted properties for rad\";\n    for (const auto& p : *seen) SYM_ERROR(*p.second) <<", "    SYM_ERROR(rad) << \"Unexepcted properties for rad\";\n    for (const auto& p : *seen) SYM_ERROR(rad) <<", "C31")
m("place expected no place", "stl-to-ps.cc", "SYM_ERROR(*p_in) << \"Expected point for '\"", "LOG(ERROR) << \"Expected point for '\"", "C31")
m("place unplaced model", "stl-to-ps.cc", "      SYM_ERROR(doc_model) << \"Failed to parse \"", "      LOG(ERROR) << \"Failed to parse \"", "C31")
m("place print line only", "ast.h", "return os << l.filename << \":\" << l.line;", "return os << \"line \" << l.line;", "C31")
mm("place moved by rotate 2", [("ast.h", "  void Rotate(Eigen::Matrix3d rot) override { p_->Rotate(rot); }", "  void Rotate(Eigen::Matrix3d rot) override { p_->Rotate(rot); loc_ = p_->location(); }"), ("ast.h", " private:\n  Loc loc_;\n};", " protected:\n  Loc loc_;\n};")], "C31")
m("ref place dim paren", "parser.y", "absl::make_unique<stl2ps::Dia>(@2, std", "absl::make_unique<stl2ps::Dia>(@3, std")
m("ref place page default", "parser.y", "new stl2ps::Page(@1,", "new stl2ps::Page(@$,")
m("ref place draw keyword", "parser.y", "absl::make_unique<stl2ps::Draw>(@3,", "absl::make_unique<stl2ps::Draw>(@2,")
m("ref place clone copy", "ast.h", "        new PointFunc(std::unique_ptr<std::string>(new std::string(name_)),\n                      p_->Clone(), location()));", "        new PointFunc(std::make_unique<std::string>(name_), p_->Clone(),\n                      this->location()));")
m("ref place scanner split", "lexer.l", "    loc->begin.line = loc->end.line = line;          \\", "    loc->begin.line = line; loc->end.line = line;    \\")
m("ref place print", "ast.h", "return os << l.filename << \":\" << l.line;", "os << l.filename << ':';\n    os << l.line;\n    return os;")
m("ref place loc copy", "stl-to-ps.cc", "    SYM_ERROR(draw) << \"Unknown model '\" << draw.name << \"'\";", "    const Loc where = draw.location();\n    SYM_ERROR(where) << \"Unknown model '\" << draw.name << \"'\";")
m("ref place message string", "stl-to-ps.cc", "    SYM_ERROR(draw) << \"Unknown model '\" << draw.name << \"'\";", "    const std::string what = \"Unknown model '\" + draw.name + \"'\";\n    SYM_ERROR(draw) << what;")
m("ref place loc assign", "ast.h", "  Loc(L l) : filename(*l.begin.filename), line(l.begin.line) {}", "  Loc(L l) {\n    filename = *l.begin.filename;\n    line = l.begin.line;\n  }")

# ---- C32
QUOTE = "std::string* NewQuote(std::string ret) {\n  size_t t = 0;\n  for (size_t f = 1; f < ret.length() - 1; t++, f++) {\n    if (ret[f] != '\\\\') {\n      ret[t] = ret[f];\n    } else {\n      switch (ret[++f]) {\n        case 'n':\n          ret[t] = '\\n';\n          break;\n        default:\n          ret[t] = ret[f];\n          break;\n      }\n    }\n  }\n  ret.resize(t);\n\n  return new std::string(std::move(ret));\n}\n"
QUOTES = {
"append":'''std::string* NewQuote(std::string ret) {
  std::string out;
  for (size_t f = 1; f + 1 < ret.size(); ++f) {
    char c = ret[f];
    if (c == '\\\\') {
      c = ret[++f];
      if (c == 'n') c = '\\n';
    }
    out.push_back(c);
  }
  return new std::string(out);
}
''',
"substr":'''std::string* NewQuote(std::string ret) {
  const std::string body = ret.substr(1, ret.size() - 2);
  std::string out;
  for (size_t f = 0; f < body.size(); f++) {
    if (body[f] == '\\\\') {
      f++;
      out += body[f] == 'n' ? '\\n' : body[f];
    } else {
      out += body[f];
    }
  }
  return new std::string(std::move(out));
}
''',
"flag":'''std::string* NewQuote(std::string ret) {
  auto out = std::unique_ptr<std::string>(new std::string);
  bool escaped = false;
  for (char c : ret.substr(1, ret.size() - 2)) {
    if (escaped) {
      out->push_back(c == 'n' ? '\\n' : c);
      escaped = false;
    } else if (c == '\\\\') {
      escaped = true;
    } else {
      out->push_back(c);
    }
  }
  return out.release();
}
''',
"iter":'''std::string* NewQuote(std::string ret) {
  std::string out;
  for (auto i = ret.begin() + 1; i != ret.end() - 1; ++i) {
    if (*i == '\\\\') {
      ++i;
      out += *i == 'n' ? '\\n' : *i;
    } else {
      out += *i;
    }
  }
  return new std::string(out);
}
''',
"while":'''std::string* NewQuote(std::string ret) {
  size_t t = 0, f = 1;
  const size_t end = ret.size() - 1;
  while (f < end) {
    char c = ret[f++];
    if (c == '\\\\') {
      c = ret[f++];
      if (c == 'n') c = '\\n';
    }
    ret[t++] = c;
  }
  ret.resize(t);
  return new std::string(std::move(ret));
}
''',
"erase":'''std::string* NewQuote(std::string ret) {
  size_t t = 0;
  for (size_t f = 1; f < ret.length() - 1; t++, f++) {
    if (ret[f] == '\\\\') {
      ++f;
      ret[t] = (ret[f] == 'n') ? '\\n' : ret[f];
      continue;
    }
    ret[t] = ret[f];
  }
  ret.erase(t);
  return new std::string(std::move(ret));
}
''',
"helper":'''static char Unescape(char c) {
  switch (c) {
    case 'n':
      return '\\n';
    default:
      return c;
  }
}
std::string* NewQuote(std::string ret) {
  size_t t = 0;
  for (size_t f = 1; f < ret.length() - 1; f++) {
    if (ret[f] == '\\\\') {
      ret[t++] = Unescape(ret[++f]);
    } else {
      ret[t++] = ret[f];
    }
  }
  return new std::string(ret, 0, t);
}
''',
}

for _n, _t in sorted(QUOTES.items()):
    m("ref quote " + _n, "ast.cc", QUOTE, _t)
m("quote tab", "ast.cc", "        case 'n':\n          ret[t] = '\\n';", "        case 'n':\n          ret[t] = '\\t';", "C32")
m("quote escape kept", "ast.cc", "        default:\n          ret[t] = ret[f];", "        default:\n          ret[t++] = '\\\\';\n          ret[t] = ret[f];", "C32")
m("quote extra escape", "ast.cc", "        case 'n':\n          ret[t] = '\\n';\n          break;\n", "        case 'n':\n          ret[t] = '\\n';\n          break;\n        case '?':\n          ret[t] = ' ';\n          break;\n", "C32")
m("quote start 0", "ast.cc", "size_t f = 1; f < ret.length() - 1; t++, f++", "size_t f = 0; f < ret.length() - 1; t++, f++", "C32")
m("quote start 2", "ast.cc", "size_t f = 1; f < ret.length() - 1; t++, f++", "size_t f = 2; f < ret.length() - 1; t++, f++", "C32")
m("quote bound -2", "ast.cc", "f < ret.length() - 1; t++, f++", "f < ret.length() - 2; t++, f++", "C32")
m("quote bound 0", "ast.cc", "f < ret.length() - 1; t++, f++", "f < ret.length(); t++, f++", "C32")
m("quote no resize", "ast.cc", "  ret.resize(t);\n\n  return new", "  return new", "C32")
m("quote resize -1", "ast.cc", "  ret.resize(t);", "  ret.resize(t ? t - 1 : 0);", "C32")
m("quote no advance", "ast.cc", "switch (ret[++f]) {", "switch (ret[f + 1]) {", "C32")
m("quote stop at nul", "ast.cc", "f < ret.length() - 1; t++, f++) {", "f < ret.length() - 1 && ret[f]; t++, f++) {", "C32")
m("quote signed", "ast.cc", "    if (ret[f] != '\\\\') {", "    if (ret[f] < 0) {\n      ret[t] = '?';\n    } else if (ret[f] != '\\\\') {", "C32")
m("quote trim", "ast.cc", "    if (ret[f] != '\\\\') {", "    if (ret[f] == '\\r') {\n      t--;\n    } else if (ret[f] != '\\\\') {", "C32")
m("quote state", "ast.cc", "  size_t t = 0;\n  for (size_t f = 1; f < ret.length() - 1; t++, f++) {\n    if (ret[f] != '\\\\') {\n      ret[t] = ret[f];\n", "  size_t t = 0;\n  bool last = false;\n  for (size_t f = 1; f < ret.length() - 1; t++, f++) {\n    if (ret[f] != '\\\\' || last) {\n      last = ret[f] == 'n';\n      ret[t] = ret[f];\n", "C32")
m("quote concat order", "parser.y", "*($$ = $1) += *$2; delete $2;", "*($$ = $2) = *$1 + *$2; delete $1;")
m("quote concat swapped", "parser.y", "*($$ = $1) += *$2; delete $2;", "*($$ = $2) += *$1; delete $1;", "C32")
m("quote concat drop", "parser.y", "*($$ = $1) += *$2; delete $2;", "$$ = $1; delete $2;", "C32")
m("quote concat space", "parser.y", "*($$ = $1) += *$2; delete $2;", "*($$ = $1) += \" \" + *$2; delete $2;", "C32")
m("quote nul", LX, "std::string(yytext, yyleng)", "std::string(yytext)", "C32", "C26")
m("quote raw", LX, "stl2ps::NewQuote(std::string(yytext, yyleng))", "new std::string(yytext + 1, yyleng - 2)", "C32", "C26")
m("ref quote until quote", "ast.cc", "for (size_t f = 1; f < ret.length() - 1; t++, f++) {", "for (size_t f = 1; ret[f] != '\"'; t++, f++) {")
m("quote until any quote", "ast.cc", "for (size_t f = 1; f < ret.length() - 1; t++, f++) {", "for (size_t f = 1; ret[f] != '\"' && ret[f] != '\\''; t++, f++) {", "C32")

# ---- C39
NUMV = "  *value = std::strtof(text, nullptr);\n  return std::isfinite(*value);\n"
m("crash stof", LX, NUMV, "  *value = std::stof(text);\n  return std::isfinite(*value);\n", "C39")
m("crash unchecked", LX, NUMV, "  *value = std::strtof(text, nullptr);\n  return true;\n", "C39")
m("crash nan only", LX, NUMV, "  *value = std::strtof(text, nullptr);\n  return !std::isnan(*value);\n", "C39")
m("crash one side", LX, NUMV, "  *value = std::strtof(text, nullptr);\n  return *value != HUGE_VALF;\n", "C39")
m("crash double", LX, NUMV, "  const double d = std::strtod(text, nullptr);\n  *value = d;\n  return std::isfinite(d);\n", "C39")
m("crash positive", LX, NUMV, "  *value = std::strtof(text, nullptr);\n  return *value < INFINITY;\n", "C39")
m("crash check", LX, NUMV, "  *value = std::strtof(text, nullptr);\n  CHECK(std::isfinite(*value)) << text;\n  return true;\n", "C39")
m("crash throw", LX, NUMV, "  *value = std::strtof(text, nullptr);\n  if (!std::isfinite(*value)) throw std::out_of_range(text);\n  return true;\n", "C39")
m("crash silent", LX, "if (!ParseNumber(yytext, &yylval_param->fp)) { stl2pserror(yyscanner); return 256; } return T::NUM; }\n[-+]?\\.", "if (!ParseNumber(yytext, &yylval_param->fp)) { yylval_param->fp = 0; } return T::NUM; }\n[-+]?\\.", "C39")
m("crash second rule", LX, "[-+]?\\.[0-9]+               { if (!ParseNumber(yytext, &yylval_param->fp)) { stl2pserror(yyscanner); return 256; } return T::NUM; }", "[-+]?\\.[0-9]+               { yylval_param->fp = std::stof(yytext); return T::NUM; }", "C39")
m("crash second rule double", LX, "[-+]?\\.[0-9]+               { if (!ParseNumber(yytext, &yylval_param->fp)) { stl2pserror(yyscanner); return 256; } return T::NUM; }", "[-+]?\\.[0-9]+               { yylval_param->fp = std::stod(yytext); return T::NUM; }", "C39")
m("crash quote empty", "ast.cc", "  ret.resize(t);\n\n  return new", "  ret.resize(t);\n  CHECK(t > 0) << \"empty string\";\n\n  return new", "C39")
m("ref crash errno", LX, NUMV, "  errno = 0;\n  *value = std::strtof(text, nullptr);\n  return errno != ERANGE || *value == 0;\n")
m("ref crash not inf", LX, NUMV, "  *value = std::strtof(text, nullptr);\n  return !std::isinf(*value);\n")
m("ref crash abs", LX, NUMV, "  *value = std::strtof(text, nullptr);\n  return std::abs(*value) != HUGE_VALF;\n")
m("ref crash max", LX, NUMV, "  *value = std::strtof(text, nullptr);\n  return std::fabs(*value) <= std::numeric_limits<float>::max();\n")
m("ref crash narrow", LX, NUMV, "  const float f = std::strtod(text, nullptr);\n  *value = f;\n  return std::isfinite(f);\n")
m("ref crash inline", LX, "if (!ParseNumber(yytext, &yylval_param->fp)) { stl2pserror(yyscanner); return 256; } return T::NUM; }\n[-+]?\\.", "float f = std::strtof(yytext, nullptr); if (std::isfinite(f)) { yylval_param->fp = f; return T::NUM; } stl2pserror(yyscanner); return 256; }\n[-+]?\\.")
m("ref crash catch", LX, NUMV, "  try {\n    *value = std::stof(text);\n    return true;\n  } catch (const std::exception&) {\n    return false;\n  }\n")

# ---- C25
ST = "stl.cc"
HP = "      PD hidden_points[5];\n"
m("lines area 4", ST, HP, "      PD hidden_points[4];\n", "C25")
m("lines area 3", ST, HP, "      PD hidden_points[3];\n", "C25")
m("lines all crossings", ST, "      for (int e : edge_list) {\n        auto b = edge_hidden.find(e);\n        if (b != edge_hidden.end()) {\n          hidden_points[idx++] = {b->second,\n                                  (ev.first - b->second).squaredNorm()};\n        }\n      }\n",
  "      for (const auto& b : edge_hidden) {\n        if (b.first == edge_list[0] || b.first == edge_list[1] || b.first == edge_list[2] || b.first < v) {\n          hidden_points[idx++] = {b.second,\n                                  (ev.first - b.second).squaredNorm()};\n        }\n      }\n", "C25")
m("lines both ends twice", ST, "          hidden_points[idx++] = {ev.first, 0};\n", "          hidden_points[idx++] = {ev.first, 0};\n          if (v0.z() == 0) hidden_points[idx++] = {ev.first, 0};\n", "C25")
mm("lines idx not reset", [(ST, "      PD hidden_points[5];\n      int idx = 0;\n", "      PD hidden_points[5];\n"), (ST, "    for (int v = 0; v < unseen; v++) {\n      // An edge", "    int idx = 0;\n    for (int v = 0; v < unseen; v++) {\n      // An edge")], "C25")
m("lines last", ST, "auto& p_max = hidden_points[idx - 1].first;", "auto& p_max = hidden_points[idx].first;", "C25")
m("lines before first", ST, "      if (idx < 2) continue;\n", "      if (facets.size() < 2) continue;\n", "C25")
m("lines edge 3", ST, "(v == edge_list[0]) || (v == edge_list[1]) || (v == edge_list[2])", "(v == edge_list[1]) || (v == edge_list[2]) || (v == edge_list[3])", "C25")
m("lines facet edge 3", ST, "const auto e20 = f.edge[0] - f.edge[2];", "const auto e20 = f.edge[3] - f.edge[2];", "C25")
m("lines fp early return", ST, "  // Find intersections of lines\n", "  if (facets.empty()) return {};\n  // Find intersections of lines\n", "C25")
m("lines fp late return", ST, "  // Find endpoints behind\n", "  if (edge_hides_list.empty()) {\n    return GenerateLines(false, unseen, kMinLineLen, edges, edge_hides_list);\n  }\n", "C25")
m("lines fp dropped", ST, "  fesetenv(&env);  // return to the inital FP state\n", "", "C25")
m("lines fp held twice", ST, "  fesetenv(&env);  // return to the inital FP state\n", "  std::feholdexcept(&env);\n  fesetenv(&env);\n", "C25")
m("lines fp default", ST, "  fesetenv(&env);  // return to the inital FP state\n", "  fesetenv(FE_DFL_ENV);\n", "C25")
m("lines fp update", ST, "  fesetenv(&env);  // return to the inital FP state\n", "  feupdateenv(&env);\n", "C25")
m("lines fp conditional", ST, "  fesetenv(&env);  // return to the inital FP state\n", "  if (!edge_hides_list.empty()) fesetenv(&env);\n", "C25")
m("lines fp again", ST, "  LOG(INFO) << \"Generate 2D lines\";\n", "  LOG(INFO) << \"Generate 2D lines\";\n  std::feholdexcept(&env);\n", "C25")
m("lines fp rounding", ST, "  // Find intersections of lines\n", "  std::fesetround(FE_DOWNWARD);\n  // Find intersections of lines\n")
m("lines fp rounding generate", ST, "  static const std::vector<Edge> nil;\n", "  static const std::vector<Edge> nil;\n  std::fesetround(FE_DOWNWARD);\n", "C25")
m("lines fp in loop", ST, "      if (idx < 2) continue;\n", "      std::fenv_t sort_env;\n      std::fegetenv(&sort_env);\n      std::fesetround(FE_TONEAREST);\n      if (idx < 2) continue;\n      std::fesetenv(&sort_env);\n")
m("ref lines area 6", ST, HP, "      PD hidden_points[6];\n")
mm("ref lines area array", [(ST, HP, "      std::array<PD, 5> hidden_points;\n"), (ST, "std::sort(hidden_points, hidden_points + idx,", "std::sort(hidden_points.begin(), hidden_points.begin() + idx,")])
mm("ref lines area vector", [(ST, HP + "      int idx = 0;\n", "      std::vector<PD> hidden_points;\n"), (ST, "hidden_points[idx++] = {ev.first, 0};", "hidden_points.emplace_back(ev.first, 0);"),
   (ST, "hidden_points[idx++] = {ev.second,\n                                  (ev.first - ev.second).squaredNorm()};", "hidden_points.emplace_back(ev.second, (ev.first - ev.second).squaredNorm());"),
   (ST, "hidden_points[idx++] = {b->second,\n                                  (ev.first - b->second).squaredNorm()};", "hidden_points.emplace_back(b->second, (ev.first - b->second).squaredNorm());"),
   (ST, "      if (idx < 2) continue;\n", "      if (hidden_points.size() < 2) continue;\n      const int idx = hidden_points.size();\n"), (ST, "std::sort(hidden_points, hidden_points + idx,", "std::sort(hidden_points.begin(), hidden_points.end(),")])
mm("ref lines add lambda", [(ST, "      // check if the ends of ev are hidden by f\n", "      const auto add = [&](const Eigen::RowVector3d& p, double d) { hidden_points[idx++] = {p, d}; };\n"),
   (ST, "hidden_points[idx++] = {ev.first, 0};", "add(ev.first, 0);"), (ST, "hidden_points[idx++] = {b->second,\n                                  (ev.first - b->second).squaredNorm()};", "add(b->second, (ev.first - b->second).squaredNorm());")])
m("ref lines index loop", ST, "      for (int e : edge_list) {\n        auto b = edge_hidden.find(e);\n", "      for (int k = 0; k < 3; k++) {\n        auto b = edge_hidden.find(edge_list[k]);\n")
m("ref lines size loop", ST, "      for (int e : edge_list) {\n        auto b = edge_hidden.find(e);\n", "      for (size_t k = 0; k < edge_list.size(); k++) {\n        auto b = edge_hidden.find(edge_list[k]);\n")
m("ref lines guarded", ST, "        if (b != edge_hidden.end()) {\n", "        if (b != edge_hidden.end() && idx < 5) {\n")
m("ref lines break full", ST, "        if (b != edge_hidden.end()) {\n", "        if (idx == 5) break;\n        if (b != edge_hidden.end()) {\n")
mm("ref lines fp raii", [(ST, "std::vector<geo::Line> STLFile::ToLines() const {\n", "namespace {\nclass HoldFp {\n public:\n  HoldFp() { std::feholdexcept(&env_); }\n  ~HoldFp() { std::fesetenv(&env_); }\n\n private:\n  std::fenv_t env_;\n};\n}  // namespace\n\nstd::vector<geo::Line> STLFile::ToLines() const {\n"),
   (ST, "  std::fenv_t env;\n  std::feholdexcept(&env);  // Hope this deals with divide by zero issues.\n", "  HoldFp hold;\n"), (ST, "  fesetenv(&env);  // return to the inital FP state\n", "")])
m("ref lines fp get", ST, "  std::feholdexcept(&env);  // Hope this deals with divide by zero issues.\n", "  std::fegetenv(&env);\n  std::fenv_t unused;\n  std::feholdexcept(&unused);\n")
m("ref lines fp late", ST, "  fesetenv(&env);  // return to the inital FP state\n\n  LOG(INFO) << \"Generate 2D lines\";\n", "  LOG(INFO) << \"Generate 2D lines\";\n  fesetenv(&env);  // return to the inital FP state\n")
mm("ref lines helper", [(ST, "std::vector<geo::Line> STLFile::ToLines() const {\n", "namespace {\nbool Behind(const Facet& f, const Eigen::RowVector3d& p) {\n  if (!(p.dot(f.norm) < f.r)) return false;\n  for (int k = 0; k < 3; k++) {\n    const Eigen::RowVector3d a = f.edge[(k + 1) % 3] - f.edge[k];\n    const Eigen::RowVector3d v = p - f.edge[k];\n    if (!(a.x() * v.y() - a.y() * v.x() >= 0)) return false;\n  }\n  return true;\n}\n}  // namespace\n\nstd::vector<geo::Line> STLFile::ToLines() const {\n"),
   (ST, "      if (ev.second.dot(f.norm) < f.r) {\n", "      if (Behind(f, ev.second)) {\n")])

# ---- C24
m("index rotate no index", ST, "  ret.CullBackFace();\n  ret.Index();\n", "  ret.CullBackFace();\n", "C24")
m("index rotate index first", ST, "  ret.CullBackFace();\n  ret.Index();\n", "  ret.Index();\n  ret.CullBackFace();\n", "C24")
m("index rotate no cull", ST, "  ret.CullBackFace();\n  ret.Index();\n", "  ret.Index();\n", "C24")
m("index make no index", ST, "  ret->Index();\n  return ret;\n", "  return ret;\n", "C24")
m("index make early", ST, "        ret->facets.emplace_back(norm, points);\n", "        ret->Index();\n        ret->facets.emplace_back(norm, points);\n")
mm("index make before last", [(ST, "        ret->facets.emplace_back(norm, points);\n", "        ret->Index();\n        ret->facets.emplace_back(norm, points);\n"), (ST, "  ret->Index();\n  return ret;\n", "  return ret;\n")], "C24")
m("index make empty only", ST, "  ret->Index();\n  return ret;\n", "  if (ret->facets.size() > 1) ret->Index();\n  return ret;\n", "C24")
m("index rotate norm", ST, "    f.norm = f.norm * m;\n", "", "C24")
m("index rotate corner", ST, "    f.edge[2] = f.edge[2] * m;\n", "", "C24")
m("index rotate corner twice", ST, "    f.edge[2] = f.edge[2] * m;\n", "    f.edge[1] = f.edge[1] * m;\n", "C24")
m("index rotate corner mixed", ST, "    f.edge[2] = f.edge[2] * m;\n", "    f.edge[2] = f.edge[1] * m;\n", "C24")
m("index rotate transpose", ST, "    f.norm = f.norm * m;\n", "    f.norm = f.norm * m.transpose();\n", "C24")
m("index rotate in place", ST, "  STLFile ret = *this;\n  for (auto& f : ret.facets) {\n", "  STLFile& ret = const_cast<STLFile&>(*this);\n  for (auto& f : ret.facets) {\n", "C24")
m("index rotate copy only", ST, "  for (auto& f : ret.facets) {\n    f.norm", "  for (auto f : ret.facets) {\n    f.norm", "C24")
m("index cull negative", ST, "facets[i].norm.z() <= 0", "facets[i].norm.z() < 0", "C24")
m("index cull front", ST, "facets[i].norm.z() <= 0", "facets[i].norm.z() >= 0", "C24")
m("index cull skip", ST, "swap(facets[i--], facets[--j]);", "swap(facets[i], facets[--j]);", "C24")
m("index cull x", ST, "facets[i].norm.z() <= 0", "facets[i].norm.x() <= 0", "C24")
m("index cull no resize", ST, "  facets.resize(j);\n", "", "C24")
m("index edges not cleared", ST, "  edges.clear();\n  face_edge.clear();\n", "  face_edge.clear();\n", "C24")
m("index enter raw", ST, "        dd.emplace(geo::Order(a, b) ? Edge{a, b} : Edge{b, a}, edges.size());\n", "        dd.emplace(Edge{a, b}, edges.size());\n", "C24")
m("index enter reversed", ST, "        dd.emplace(geo::Order(a, b) ? Edge{a, b} : Edge{b, a}, edges.size());\n", "        dd.emplace(geo::Order(b, a) ? Edge{a, b} : Edge{b, a}, edges.size());\n", "C24")
m("index lookup raw", ST, "    auto x = dd.find(geo::Order(a, b) ? Edge{a, b} : Edge{b, a});\n", "    auto x = dd.find(Edge{a, b});\n", "C24")
m("index lookup x only", ST, "    auto x = dd.find(geo::Order(a, b) ? Edge{a, b} : Edge{b, a});\n", "    auto x = dd.find(a.x() < b.x() ? Edge{a, b} : Edge{b, a});\n", "C24")
mm("index both x only", [(ST, "    auto x = dd.find(geo::Order(a, b) ? Edge{a, b} : Edge{b, a});\n", "    auto x = dd.find(a.x() < b.x() ? Edge{a, b} : Edge{b, a});\n"), (ST, "        dd.emplace(geo::Order(a, b) ? Edge{a, b} : Edge{b, a}, edges.size());\n", "        dd.emplace(a.x() < b.x() ? Edge{a, b} : Edge{b, a}, edges.size());\n")], "C24")
m("index enter two edges", ST, "    AddEdge(f.edge[2], f.edge[0], i);\n", "", "C24")
m("index enter edge twice", ST, "    AddEdge(f.edge[2], f.edge[0], i);\n", "    AddEdge(f.edge[0], f.edge[1], i);\n", "C24")
m("index enter from one", ST, "  for (uint32_t i = 0; i < facets.size(); i++) {\n    const auto& f = facets[i];\n    AddEdge", "  for (uint32_t i = 1; i < facets.size(); i++) {\n    const auto& f = facets[i];\n    AddEdge", "C24")
m("index enter wrong face", ST, "      edge_face.push_back({f, f});\n", "      edge_face.push_back({f, 0});\n", "C24")
m("index enter second lost", ST, "      edge_face[idx].second = f;\n", "      edge_face[idx].second = edge_face[idx].first;\n", "C24")
m("index enter first lost", ST, "      edge_face[idx].second = f;\n", "      edge_face[idx] = {f, f};\n", "C24")
m("index enter position", ST, "Edge{b, a}, edges.size());\n    auto idx", "Edge{b, a}, edges.size() + 1);\n    auto idx", "C24")
m("index no rebuild", ST, "  for (uint32_t i = 0; i < edges.size(); i++) dd[edges[i]] = i;\n", "", "C24")
m("index rebuild unseen", ST, "  for (uint32_t i = 0; i < edges.size(); i++) dd[edges[i]] = i;\n", "  for (int i = 0; i < unseen; i++) dd[edges[i]] = i;\n", "C24")
m("index rebuild emplace", ST, "  dd.clear();\n  for (uint32_t i = 0; i < edges.size(); i++) dd[edges[i]] = i;\n", "  for (uint32_t i = 0; i < edges.size(); i++) dd.emplace(edges[i], i);\n", "C24")
m("index rebuild offset", ST, "dd[edges[i]] = i;\n", "dd[edges[i]] = i + 1;\n", "C24")
m("index swap faces only", ST, "      swap(edges[ea], edges[eb]);\n", "", "C24")
m("index swap edges only", ST, "      swap(edge_face[ea], edge_face[eb]);\n", "", "C24")
m("index swap overwrite", ST, "      swap(edges[ea], edges[eb]);\n", "      edges[ea] = edges[eb];\n", "C24")
m("index swap skip", ST, "      const int ea = i--, eb = --unseen;\n", "      const int ea = i, eb = --unseen;\n", "C24")
m("index swap off", ST, "      const int ea = i--, eb = --unseen;\n", "      const int ea = i--, eb = unseen--;\n", "C24")
m("index border set aside", ST, "      if (a1 == a2) continue;  // leave \"only once\" edges alone.\n", "", "C24")
m("index angle turned", ST, "      if (ang < min_ang) continue;\n", "      if (ang > min_ang) continue;\n", "C24")
m("index angle ignored", ST, "      if (ang < min_ang) continue;\n", "", "C24")
m("index angle self", ST, "facets[a1].norm.dot(facets[a2].norm)", "facets[a1].norm.dot(facets[a1].norm)", "C24")
m("index unseen kept", ST, "  unseen = edges.size();\n", "", "C24")
m("index table slot", ST, "    UpdateEdge(f.edge[2], f.edge[0], i, 2);\n", "    UpdateEdge(f.edge[2], f.edge[0], i, 1);\n", "C24")
m("index table edge", ST, "    UpdateEdge(f.edge[2], f.edge[0], i, 2);\n", "    UpdateEdge(f.edge[2], f.edge[1], i, 2);\n", "C24")
m("index table missing", ST, "    UpdateEdge(f.edge[2], f.edge[0], i, 2);\n", "", "C24")
m("index table row", ST, "    face_edge[f][e] = x->second;\n", "    face_edge[e][e] = x->second;\n", "C24")
m("index table before sorting", ST, "  // Update the edge->index mapping\n  dd.clear();\n  for (uint32_t i = 0; i < edges.size(); i++) dd[edges[i]] = i;\n", "", "C24")
m("index table last facet", ST, "  for (uint32_t i = 0; i < facets.size(); i++) {\n    const auto& f = facets[i];\n    UpdateEdge", "  for (uint32_t i = 0; i + 1 < facets.size(); i++) {\n    const auto& f = facets[i];\n    UpdateEdge", "C24")
m("index keep when empty", ST, "void STLFile::Index() {\n", "void STLFile::Index() {\n  if (facets.empty()) return;\n", "C24")
CAN = "geo::Order(a, b) ? Edge{a, b} : Edge{b, a}"
mm("ref index canonical helper", [(ST, "}  // namespace\n\nvoid STLFile::Index() {\n", "Edge Canonical(const Eigen::RowVector3d& a, const Eigen::RowVector3d& b) {\n  if (geo::Order(a, b)) return {a, b};\n  return {b, a};\n}\n\n}  // namespace\n\nvoid STLFile::Index() {\n"),
   (ST, "        dd.emplace(" + CAN + ", edges.size());", "        dd.emplace(Canonical(a, b), edges.size());"), (ST, "dd.find(" + CAN + ");", "dd.find(Canonical(a, b));")])
mm("ref index canonical descending", [(ST, "        dd.emplace(" + CAN + ", edges.size());", "        dd.emplace(geo::Order(b, a) ? Edge{a, b} : Edge{b, a}, edges.size());"), (ST, "dd.find(" + CAN + ");", "dd.find(geo::Order(b, a) ? Edge{a, b} : Edge{b, a});")])
mm("ref index canonical swap", [(ST, "    auto x = dd.find(" + CAN + ");\n", "    Edge key{a, b};\n    if (geo::Order(b, a)) swap(key.first, key.second);\n    auto x = dd.find(key);\n")])
m("ref index corner loop", ST, "    AddEdge(f.edge[0], f.edge[1], i);\n    AddEdge(f.edge[1], f.edge[2], i);\n    AddEdge(f.edge[2], f.edge[0], i);\n", "    for (int e = 0; e < 3; e++) AddEdge(f.edge[e], f.edge[(e + 1) % 3], i);\n")
m("ref index table loop", ST, "    UpdateEdge(f.edge[0], f.edge[1], i, 0);\n    UpdateEdge(f.edge[1], f.edge[2], i, 1);\n    UpdateEdge(f.edge[2], f.edge[0], i, 2);\n", "    for (int e = 0; e < 3; e++) UpdateEdge(f.edge[e], f.edge[(e + 1) % 3], i, e);\n")
m("ref index table order", ST, "    UpdateEdge(f.edge[0], f.edge[1], i, 0);\n    UpdateEdge(f.edge[1], f.edge[2], i, 1);\n", "    UpdateEdge(f.edge[2], f.edge[1], i, 1);\n    UpdateEdge(f.edge[0], f.edge[1], i, 0);\n")
m("ref index table at", ST, "    auto x = dd.find(" + CAN + ");\n    CHECK(x != dd.end()) << \"edge not found\";\n    face_edge[f][e] = x->second;\n", "    face_edge[f][e] = dd.at(" + CAN + ");\n")
m("ref index rebuild emplace", ST, "dd[edges[i]] = i;\n", "dd.emplace(edges[i], i);\n")
m("ref index rebuild no clear", ST, "  dd.clear();\n  for (uint32_t i", "  for (uint32_t i")
m("ref index rebuild range", ST, "  for (uint32_t i = 0; i < edges.size(); i++) dd[edges[i]] = i;\n", "  int position = 0;\n  for (const auto& e : edges) dd[e] = position++;\n")
m("ref index size_t", ST, "  for (uint32_t i = 0; i < edges.size(); i++) dd[edges[i]] = i;\n", "  for (size_t i = 0; i < edges.size(); ++i) {\n    const Edge& e = edges[i];\n    dd[e] = static_cast<int>(i);\n  }\n")
m("ref index range facets", ST, "  for (uint32_t i = 0; i < facets.size(); i++) {\n    const auto& f = facets[i];\n    AddEdge(f.edge[0], f.edge[1], i);\n    AddEdge(f.edge[1], f.edge[2], i);\n    AddEdge(f.edge[2], f.edge[0], i);\n  }\n", "  int number = 0;\n  for (const auto& f : facets) {\n    AddEdge(f.edge[0], f.edge[1], number);\n    AddEdge(f.edge[1], f.edge[2], number);\n    AddEdge(f.edge[2], f.edge[0], number);\n    number++;\n  }\n")
m("ref index aside while", ST, "    for (int i = 0; i < unseen; i++) {\n      const int a1 = edge_face[i].first, a2 = edge_face[i].second;\n      if (a1 == a2) continue;  // leave \"only once\" edges alone.\n\n      auto ang = facets[a1].norm.dot(facets[a2].norm);\n      if (ang < min_ang) continue;\n\n      // Swap ea and eb and update the other references.\n      const int ea = i--, eb = --unseen;\n      swap(edge_face[ea], edge_face[eb]);\n      swap(edges[ea], edges[eb]);\n    }\n",
  "    int i = 0;\n    while (i < unseen) {\n      const auto& sides = edge_face[i];\n      const bool flat = sides.first != sides.second &&\n          facets[sides.first].norm.dot(facets[sides.second].norm) >= min_ang;\n      if (!flat) {\n        ++i;\n        continue;\n      }\n      --unseen;\n      swap(edge_face[i], edge_face[unseen]);\n      swap(edges[i], edges[unseen]);\n    }\n")
m("ref index enter insert", ST, "        dd.emplace(" + CAN + ", edges.size());\n", "        dd.insert({" + CAN + ", static_cast<int>(edges.size())});\n")
mm("ref index enter find", [(ST, "    auto x =\n        dd.emplace(" + CAN + ", edges.size());\n    auto idx = x.first->second;\n\n    if (x.second) {\n      edges.push_back(x.first->first);  // fist sight\n      edge_face.push_back({f, f});\n    } else {\n      edge_face[idx].second = f;\n    }\n",
   "    const Edge key = " + CAN + ";\n    const auto known = dd.find(key);\n    if (known != dd.end()) {\n      edge_face[known->second].second = f;\n      return;\n    }\n    dd[key] = edges.size();\n    edges.push_back(key);\n    edge_face.push_back({f, f});\n")])
m("ref index rotate loop", ST, "    f.edge[0] = f.edge[0] * m;\n    f.edge[1] = f.edge[1] * m;\n    f.edge[2] = f.edge[2] * m;\n", "    for (auto& e : f.edge) e = e * m;\n")
m("ref index rotate times", ST, "    f.edge[0] = f.edge[0] * m;\n", "    f.edge[0] *= m;\n")
m("ref index rotate index", ST, "  for (auto& f : ret.facets) {\n    f.norm", "  for (size_t i = 0; i < ret.facets.size(); i++) {\n    auto& f = ret.facets[i];\n    f.norm")
m("ref index rotate copies", ST, "  STLFile ret = *this;\n  for (auto& f : ret.facets) {\n", "  STLFile ret;\n  ret.facets = facets;\n  for (auto& f : ret.facets) {\n")
m("ref index rotate push", ST, "  STLFile ret = *this;\n  for (auto& f : ret.facets) {\n    f.norm = f.norm * m;\n    f.edge[0] = f.edge[0] * m;\n    f.edge[1] = f.edge[1] * m;\n    f.edge[2] = f.edge[2] * m;\n  }\n", "  STLFile ret;\n  ret.facets.reserve(facets.size());\n  for (const auto& f : facets) {\n    Facet g = f;\n    g.norm = f.norm * m;\n    g.edge[0] = f.edge[0] * m;\n    g.edge[1] = f.edge[1] * m;\n    g.edge[2] = f.edge[2] * m;\n    ret.facets.push_back(g);\n  }\n")
m("ref index cull while", ST, "  for (; i < j; i++) {\n    if (facets[i].norm.z() <= 0) swap(facets[i--], facets[--j]);\n  }\n", "  while (i < j) {\n    if (facets[i].norm.z() > 0) {\n      i++;\n    } else {\n      j--;\n      swap(facets[i], facets[j]);\n    }\n  }\n")
m("ref index cull copy", ST, "  int i = 0, j = facets.size();\n  for (; i < j; i++) {\n    if (facets[i].norm.z() <= 0) swap(facets[i--], facets[--j]);\n  }\n  facets.resize(j);\n", "  std::vector<Facet> front;\n  for (const auto& f : facets) {\n    if (f.norm.z() > 0) front.push_back(f);\n  }\n  facets = std::move(front);\n")
m("ref index cull erase", ST, "  int i = 0, j = facets.size();\n  for (; i < j; i++) {\n    if (facets[i].norm.z() <= 0) swap(facets[i--], facets[--j]);\n  }\n  facets.resize(j);\n", "  facets.erase(std::remove_if(facets.begin(), facets.end(), [](const Facet& f) { return f.norm.z() <= 0; }), facets.end());\n")
mm("ref index wrapper", [(ST, "  ret.CullBackFace();\n  ret.Index();\n  return ret;\n", "  ret.Finish();\n  return ret;\n"), (ST, "void STLFile::CullBackFace() {\n", "void STLFile::Finish() {\n  CullBackFace();\n  Index();\n}\n\nvoid STLFile::CullBackFace() {\n"), ("stl.h", "  void Index();\n", "  void Index();\n  void Finish();\n")])
# ---- C38
A, CE = "ast.cc", "center.cc"
FAR = "if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;"
m("point name lax", A, "  if (name_ == \"center\") {\n    return Center(ps, ret);\n  }\n  SYM_ERROR(*this)", "  if (name_ != \"error\") {\n    return Center(ps, ret);\n  }\n  SYM_ERROR(*this)", "C38")
m("point unknown zero", A, "  SYM_ERROR(*this) << \"Unknown function '\" << name_ << \"'\";\n  return false;", "  SYM_ERROR(*this) << \"Unknown function '\" << name_ << \"'\";\n  return p_->Invoke(ps, ret);", "C38")
m("point near arg ignored", A, "  if (!p_->Invoke(ps, &target)) return false;\n  if (ps.find", "  p_->Invoke(ps, &target);\n  if (ps.find", "C38")
m("point center arg ignored", A, "  if (!p_->Invoke(ps, &target3)) return false;", "  if (!p_->Invoke(ps, &target3)) target3 = *ps.begin();", "C38")
m("point near empty", A, "  if (ps.empty()) {\n    SYM_ERROR(*this) << \"No points for 'near'\";\n    return false;\n  }\n", "", "C38")
m("point near hit", A, "  if (ps.find(target) != ps.end()) {\n    *ret = target;\n    return true;\n  }\n  target =", "  target =", "C38")
m("point near hit flat", A, "    *ret = target;\n    return true;\n  }\n  target = ", "    *ret = {target.x(), target.y(), 0};\n    return true;\n  }\n  target = ", "C38")
m("point near 3d", A, "  target = {target.x(), target.y(), 0};\n\n", "", "C38")
m("point near 3d both", A, "    x = {x.x(), x.y(), 0};\n    double d = (target - x).squaredNorm();", "    double d = (target - x).squaredNorm();\n    x = {x.x(), x.y(), 0};", "C38")
m("point near farthest", A, "    if (r > d) {", "    if (r < d) {", "C38")
m("point near r kept", A, "      r = d;\n      *ret = x;", "      *ret = x;", "C38")
m("point near bound", A, "double r = std::numeric_limits<double>::max();", "double r = 1e6;", "C38")
m("point near min bound", A, "double r = std::numeric_limits<double>::max();", "double r = std::numeric_limits<double>::min();", "C38")
mm("point near unset", [(A, "  *ret = {ps.begin()->x(), ps.begin()->y(), 0};\n", ""), (A, "double r = std::numeric_limits<double>::max();", "double r = 1e30;")], "C38")

m("point near swapped", A, "    x = {x.x(), x.y(), 0};", "    x = {x.y(), x.x(), 0};", "C38")
m("point near target back", A, "      *ret = x;\n", "      *ret = target;\n", "C38")
m("point center first fit ignored", A, "  if (!FindCircle(near, &center, &rad)) {\n    SYM_ERROR(*this) << \"Failed to find center\";\n    return false;\n  }\n\n  // Find points", "  FindCircle(near, &center, &rad);\n\n  // Find points", "C38")
m("point center z unset", A, "  *ret = {center.x(), center.y(), 0};", "  ret->x() = center.x();\n  ret->y() = center.y();", "C38")
m("point center swapped", A, "  *ret = {center.x(), center.y(), 0};", "  *ret = {center.y(), center.x(), 0};", "C38")
m("point center flatten", A, "points.emplace_back(p3.x(), p3.y());", "points.emplace_back(p3.x(), p3.z());", "C38")
m("point center flatten skip", A, "  for (const auto& p3 : ps) points.emplace_back(p3.x(), p3.y());", "  for (const auto& p3 : ps) {\n    if (p3.z() >= 0) points.emplace_back(p3.x(), p3.y());\n  }", "C38")
m("point center two", A, "point_impl::Closest(points, 3, target);", "point_impl::Closest(points, 2, target);", "C38")
m("point center four", A, "point_impl::Closest(points, 3, target);", "point_impl::Closest(points, 4, target);", "C38")
m("point center range", A, "rad * (1 - del), rad * (1 + del), center);", "rad * (1 + del), rad * (1 + 2 * del), center);", "C38")
m("point center around target", A, "rad * (1 - del), rad * (1 + del), center);", "rad * (1 - del), rad * (1 + del), target);", "C38")
m("point fit few", CE, "if (points.size() < 3) return false;", "if (points.size() < 2) return false;", "C38")
m("point fit skip", CE, "for (size_t i = 0; i < points.size(); i++) {", "for (size_t i = 1; i < points.size(); i++) {", "C38")
m("point fit coefficient", CE, "X(i, 2) = 0.5;", "X(i, 2) = 1.0;", "C38")
m("point fit half", CE, "Y[i] = p.dot(p) / 2;", "Y[i] = p.dot(p);", "C38")
m("point fit swap", CE, "  center->x() = res.x();\n  center->y() = res.y();", "  center->x() = res.y();\n  center->y() = res.x();", "C38")
m("point fit radius", CE, "std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2))", "std::sqrt(res.z() + std::pow(res.x(), 2) - std::pow(res.y(), 2))", "C38")
m("point fit no rad", CE, "  *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));\n  return std::isfinite(*rad);", "  const double r = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));\n  if (rad != nullptr && r > 1e-6) *rad = r;\n  return std::isfinite(r);", "C38")
m("point fit finite", CE, "return std::isfinite(*rad);", "return true;", "C38")
m("point fit column", CE, "    X(i, 1) = p.y();\n", "    X(i, 1) = p.x();\n", "C38")
m("point fit y row", CE, "Y[i] = p.dot(p) / 2;", "Y[i] = p.x() * p.x() / 2;", "C38")
m("point between low", A, "if (min * min < r2 && r2 < max * max)", "if (min < r2 && r2 < max * max)", "C38")
m("point between or", A, "if (min * min < r2 && r2 < max * max)", "if (min * min < r2 || r2 < max * max)", "C38")
m("point between x", A, "    double r2 = (p - to).squaredNorm();\n", "    double r2 = (p - to).x() * (p - to).x();\n", "C38")
m("point between high only", A, "if (min * min < r2 && r2 < max * max)", "if (r2 < max * max)", "C38")
m("point closest early", A, FAR, "if (!c.empty() && d > c.rbegin()->first) continue;", "C38")
m("point closest dup", A, "<= d * .01", "< d * .01", "C38")
m("point closest begin", A, "c.erase(--c.end());", "c.erase(c.begin());", "C38")
m("point closest many", A, "while (static_cast<int>(c.size()) > count) c.erase(--c.end());", "while (static_cast<int>(c.size()) > count + 1) c.erase(--c.end());", "C38")
m("point closest norm", A, "    auto d = (p - to).squaredNorm();\n", "    auto d = (p + to).squaredNorm();\n", "C38")
m("point literal rotate", "ast.h", "p_ = p_ * rot;", "p_ = p_ * rot.transpose();", "C38")
m("point literal no rotate", "ast.h", "void Rotate(Eigen::Matrix3d rot) override { p_ = p_ * rot; }", "void Rotate(Eigen::Matrix3d rot) override {}", "C38")
m("point func no rotate", "ast.h", "void Rotate(Eigen::Matrix3d rot) override { p_->Rotate(rot); }", "void Rotate(Eigen::Matrix3d rot) override {\n    if (name_ != \"center\") p_->Rotate(rot);\n  }", "C38")
m("point literal xy", "ast.h", "    *ret = p_;\n", "    *ret = {p_.x(), p_.y(), 0};\n", "C38")
m("point literal keep z", "ast.h", "    *ret = p_;\n", "    ret->x() = p_.x();\n    ret->y() = p_.y();\n", "C38")
m("ref point near infinity", A, "double r = std::numeric_limits<double>::max();", "double r = std::numeric_limits<double>::infinity();")
m("ref point near inline", A, "    x = {x.x(), x.y(), 0};\n    double d = (target - x).squaredNorm();\n    if (r > d) {\n      r = d;\n      *ret = x;\n    }",
  "    const double dx = target.x() - x.x(), dy = target.y() - x.y();\n    const double d = dx * dx + dy * dy;\n    if (d >= r) continue;\n    r = d;\n    *ret = {x.x(), x.y(), 0};")
m("ref point near norm", A, "double d = (target - x).squaredNorm();", "double d = (x - target).norm();")
m("ref point near local", A, "  *ret = {ps.begin()->x(), ps.begin()->y(), 0};\n\n  for (auto x : ps) {\n    x = {x.x(), x.y(), 0};\n    double d = (target - x).squaredNorm();\n    if (r > d) {\n      r = d;\n      *ret = x;\n    }\n  }\n",
  "  Eigen::RowVector3d best = *ps.begin();\n  for (const auto& p : ps) {\n    const Eigen::RowVector3d flat(p.x(), p.y(), 0);\n    const double d = (target - flat).squaredNorm();\n    if (d < r) {\n      r = d;\n      best = flat;\n    }\n  }\n  *ret = {best.x(), best.y(), 0};\n")
m("ref point near count", A, "if (ps.find(target) != ps.end()) {", "if (ps.count(target) > 0) {")
m("ref point dispatch", A, "  if (name_ == \"near\") {\n    return Near(ps, ret);\n  }\n  if (name_ == \"center\") {\n    return Center(ps, ret);\n  }\n  SYM_ERROR(*this) << \"Unknown function '\" << name_ << \"'\";\n  return false;",
  "  const bool is_near = name_ == \"near\";\n  if (!is_near && name_ != \"center\") {\n    SYM_ERROR(*this) << \"Unknown function '\" << name_ << \"'\";\n    return false;\n  }\n  return is_near ? Near(ps, ret) : Center(ps, ret);")
m("ref point center no size", A, "  if (ps.size() < 3) {\n    SYM_ERROR(*this) << \"Not enough points for 'center'\";\n    return false;\n  }\n", "")
m("ref point center xy", A, "  *ret = {center.x(), center.y(), 0};", "  ret->x() = center.x();\n  ret->y() = center.y();\n  ret->z() = 0;")
m("ref point center push", A, "  for (const auto& p3 : ps) points.emplace_back(p3.x(), p3.y());", "  points.reserve(ps.size());\n  for (auto it = ps.begin(); it != ps.end(); ++it) {\n    points.push_back(Eigen::RowVector2d(it->x(), it->y()));\n  }")
mm("ref point center helper", [(A, "  if (!FindCircle(near, &center, &rad)) {\n    SYM_ERROR(*this) << \"Failed to find center\";\n    return false;\n  }\n\n  // Find points of about the right distance from the presumed center.\n  const double del = 0.1;\n  near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);\n\n  // Find the center of the \"circle\" this (preumably) larger set of points form.\n  if (!FindCircle(near, &center, &rad)) {",
  "  const double del = 0.1;\n  bool ok = FindCircle(near, &center, &rad);\n  if (ok) {\n    const auto about = point_impl::Between(points, (1 - del) * rad, rad + del * rad, center);\n    ok = FindCircle(about, &center, &rad);\n  }\n  if (!ok) {")])
m("ref point fit range", CE, "  for (size_t i = 0; i < points.size(); i++) {\n    auto p = points[i];\n    X(i, 0) = p.x();\n    X(i, 1) = p.y();\n    X(i, 2) = 0.5;\n    Y[i] = p.dot(p) / 2;\n  }", "  int i = 0;\n  for (const auto& p : points) {\n    X(i, 0) = p.x();\n    X(i, 1) = p.y();\n    X(i, 2) = 0.5;\n    Y[i] = 0.5 * p.squaredNorm();\n    ++i;\n  }")
m("ref point fit scaled", CE, "    X(i, 0) = p.x();\n    X(i, 1) = p.y();\n    X(i, 2) = 0.5;\n    Y[i] = p.dot(p) / 2;\n", "    X(i, 0) = 2 * p.x();\n    X(i, 1) = 2 * p.y();\n    X(i, 2) = 1;\n    Y[i] = p.x() * p.x() + p.y() * p.y();\n")
m("ref point fit finite", CE, "  center->x() = res.x();", "  if (!res.allFinite()) return false;\n  center->x() = res.x();")
m("ref point fit result", CE, "  center->x() = res.x();\n  center->y() = res.y();\n  *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));\n", "  *center = Eigen::RowVector2d(res.x(), res.y());\n  *rad = std::sqrt(res.z() + center->squaredNorm());\n")
m("ref point fit not finite", CE, "  return std::isfinite(*rad);", "  if (!std::isfinite(*rad)) return false;\n  return true;")
m("ref point fit qr", CE, "Eigen::Vector3d res = (Xt * X).inverse() * Xt * Y;", "Eigen::Matrix3d n = Xt * X;\n  Eigen::Vector3d b = Xt * Y;\n  Eigen::Vector3d res = n.inverse() * b;")
m("ref point between flip", A, "    if (min * min < r2 && r2 < max * max) ret.emplace_back(p);", "    if (r2 <= min * min) continue;\n    if (r2 >= max * max) continue;\n    ret.push_back(p);")
m("ref point between norm", A, "    double r2 = (p - to).squaredNorm();\n    if (min * min < r2 && r2 < max * max)", "    double r = (p - to).norm();\n    if (min < r && r < max)")
m("ref point between bounds", A, "    double r2 = (p - to).squaredNorm();\n    if (min * min < r2 && r2 < max * max)", "    const double r2 = (p - to).squaredNorm();\n    const double low = min * min, high = max * max;\n    const bool inside = low < r2 && r2 < high;\n    if (inside)")
m("ref point closest if", A, "while (static_cast<int>(c.size()) > count) c.erase(--c.end());", "if (static_cast<int>(c.size()) > count) c.erase(std::prev(c.end()));")
m("ref point closest insert", A, "c.emplace(d, p);", "c.insert({d, p});")
m("ref point closest full", A, FAR, "const bool full = c.size() >= static_cast<size_t>(count);\n    if (full && d > c.rbegin()->first) continue;")
m("ref point closest no skip", A, "    // Skip anything already too far away.\n    " + FAR + "\n", "")
m("ref point closest any_of", A, "    if (std::find_if(r.first, r.second, pred) != r.second) continue;", "    if (std::any_of(r.first, r.second, pred)) continue;")
m("ref point closest exact", A, "<= d * .01", "<= .01 * d")
m("ref point closest ret", A, "  for (const auto& p : c) ret.push_back(p.second);", "  ret.reserve(c.size());\n  for (auto it = c.begin(); it != c.end(); ++it) ret.emplace_back(it->second);")
m("ref point literal local", "ast.h", "    *ret = p_;\n    return true;", "    Eigen::RowVector3d& r = *ret;\n    r = p_;\n    return true;")
m("ref point literal times", "ast.h", "p_ = p_ * rot;", "p_ *= rot;")

# ---- C41, C45, C46: what dimensions print and where they draw
m("value dim no unit", S, "  dir = dir.normalized();\n\n  absl::ParsedFormat<'f'> fmt{\"%.3f\"};", "  absl::ParsedFormat<'f'> fmt{\"%.3f\"};", "C41")
m("value dim signed", S, "double dim_value = length.norm();", "double dim_value = dir.dot(length);", "C41")
m("value dim straight", S, "double dim_value = length.norm();", "double dim_value = (to - from).norm();", "C41")
m("value dim in plane", S, "double dim_value = length.norm();", "double dim_value = Eigen::RowVector2d{length.x(), length.y()}.norm();", "C41")
m("value dim scaled", S, "t.str = absl::StrFormat(fmt, dim_value);", "t.str = absl::StrFormat(fmt, dim_value * proj.scale);", "C41")
m("value dim squared", S, "double dim_value = length.norm();", "double dim_value = length.squaredNorm();", "C41")
m("value dim to at", S, "Eigen::RowVector3d to_at = to - at;", "Eigen::RowVector3d to_at = to - from;", "C41", "C46")
m("value angle rad", S, "from_dir.dot(to_dir)) * 180 / geo::PI;", "from_dir.dot(to_dir)) * 200 / geo::PI;", "C41")
m("value angle in plane", S, "std::atan2(c.norm(), from_dir.dot(to_dir))", "std::atan2(std::abs(c.z()), from_dir.dot(to_dir))", "C41")
m("value angle apex", S, "to_dir = (to_point - apex).normalized();", "to_dir = (to_point - at).normalized();", "C41", "C46")
m("value angle no apex", S, "from_dir = (from_point - apex).normalized();", "from_dir = from_point.normalized();", "C41")
m("value angle acos", S, "std::atan2(c.norm(), from_dir.dot(to_dir))", "std::acos(from_dir.dot(to_dir))", "C41", "C45")
m("value angle acos high", S, "std::atan2(c.norm(), from_dir.dot(to_dir))", "std::acos(std::min(1.0, from_dir.dot(to_dir)))", "C45")
m("value angle asin", S, "std::atan2(c.norm(), from_dir.dot(to_dir))", "std::atan(c.norm() / from_dir.dot(to_dir))", "C45")
m("value dia once", S, "absl::StrFormat(fmt, r * 2)", "absl::StrFormat(fmt, r)", "C41")
m("value rad twice", S, "absl::StrCat(\"R\", absl::StrFormat(fmt, r))", "absl::StrCat(\"R\", absl::StrFormat(fmt, r * 2))", "C41")
m("value rad near three", S, "  near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);\n", "", "C41")
m("value rad four", S, "point_impl::Closest(points, 3, target)", "point_impl::Closest(points, 4, target)", "C41")
m("value rad about at", S, "Eigen::RowVector2d target = {target3.x(), target3.y()};", "Eigen::RowVector2d target = {at.x(), at.y()};", "C41")
m("value rad all", S, "near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);", "near = points;", "C41")
m("value rad yx", S, "points.emplace_back(p3.x(), p3.y());", "points.emplace_back(p3.x(), p3.z());", "C41")
m("value rad range", S, "rad * (1 - del), rad * (1 + del), center", "rad * (1 + del), rad * (1 + 2 * del), center", "C41")
m("finite rad guard", S, "  if (len > 1 && std::isfinite(len)) {  // Not finite: dir is across the page.\n    Eigen::RowVector2d b = ", "  if (len > 1) {\n    Eigen::RowVector2d b = ", "C45")
m("finite rad nan", S, "std::min(direct.x() / dir.x(), direct.y() / dir.y());\n  if (len > 1 && std::isfinite(len)) {  // Not finite: dir is across the page.\n    Eigen::RowVector2d b = ", "direct.x() / dir.x();\n  if (!(len < 1)) {\n    Eigen::RowVector2d b = ", "C45")
m("finite angle zero", S, "  if (c.z() == 0) {\n    SYM_ERROR(dim) << \"Degenerate angle provided.\";\n    return false;\n  }\n", "", "C45")
m("finite dim gap", S, "if (gap * 2 < dim_value * proj.scale) {", "if (gap * 2 != dim_value * proj.scale) {", "C45")
m("finite dim ratio", S, "double from_sign = from_at.dot(b) > 0 ? +1 : -1;", "double from_sign = from_at.dot(b) / std::abs(from_at.dot(b));", "C45")
m("place dim arrow", S, "Eigen::RowVector3d arrow_from = at + dir * dir.dot(from_at);", "Eigen::RowVector3d arrow_from = from + dir * dir.dot(from_at);", "C46")
m("place dim head", S, "{arrow_to, arrow_to + (a * -6 + b * +2)},\n      {arrow_to, arrow_to + (a * -6 + b * -2)},", "{to, to + (a * -6 + b * +2)},\n      {to, to + (a * -6 + b * -2)},", "C46")
m("place dim extension", S, "{p3{arrow_to - b * 4 * to_sign}, to - b * 2 * to_sign}", "{p3{arrow_to - b * 4 * to_sign}, from - b * 2 * to_sign}", "C46")
m("place dim label", S, "  t.at.x() = at.x();\n  t.at.y() = at.y();\n  t.str = absl::StrFormat(fmt, dim_value);", "  t.at.x() = from.x();\n  t.at.y() = at.y();\n  t.str = absl::StrFormat(fmt, dim_value);", "C46")
m("place angle radius", S, "double l = (at - apex).norm();", "double l = (at - from_point).norm();", "C46")
m("place angle sector", S, "  if (c.z() > 0) {\n", "  if (c.z() < 0) {\n", "C46")
m("place angle unswapped point", S, "    swap(to_dir, from_dir);\n", "", "C46")
m("place angle arc centre", S, "{apex, l, from_dir, to_dir}", "{at, l, from_dir, to_dir}", "C46")
m("place angle arc reversed", S, "{apex, l, from_dir, to_dir}", "{apex, l, to_dir, from_dir}", "C46")
m("place angle arc ends", S, "{apex, l, from_dir, to_dir}", "{apex, l, from_point, to_point}", "C46")
m("place angle no swap points", S, "    swap(to_point, from_point);\n", "", "C46")
m("place arc atan", "geo.h", "std::atan2(e.y(), e.x())", "std::atan2(e.x(), e.y())", "C46")
m("place rad tip", S, "  Eigen::RowVector2d a = center + dir * r;\n\n  // TODO, Do", "  Eigen::RowVector2d a = center + dir * r * 2;\n\n  // TODO, Do", "C46")
m("place rad unit", S, "  dir = dir.normalized();\n\n  Eigen::RowVector2d a = center + dir * r;\n\n  // TODO", "  Eigen::RowVector2d a = center + dir * r;\n\n  // TODO", "C46")
m("place rad label", S, "  t.at = at;\n  t.str = absl::StrCat(\"R\"", "  t.at = a;\n  t.str = absl::StrCat(\"R\"", "C46")
m("place dia far", S, "Eigen::RowVector2d b = center - dir * r;", "Eigen::RowVector2d b = at - dir * r;", "C46")
m("place dia other", S, "      {b, b + (+6 * dir + +2 * cross)},\n      {b, b + (+6 * dir + -2 * cross)},\n", "      {center, center + (+6 * dir + +2 * cross)},\n      {center, center + (+6 * dir + -2 * cross)},\n", "C46")
m("place rad to target", S, "  *ret_center = center;\n  *ret_rad = rad;", "  *ret_center = target;\n  *ret_rad = rad;", "C46")
m("ref value dim abs", S, "double dim_value = length.norm();", "double dim_value = std::abs(dir.dot(to - from));")
m("ref value dim sqrt", S, "double dim_value = length.norm();", "double dim_value = std::sqrt(length.dot(length));")
m("ref value dim foot", S, "Eigen::RowVector3d arrow_to = at + dir * dir.dot(to_at);", "Eigen::RowVector3d arrow_to = arrow_from + dir * dir.dot(to - from);")
m("ref value angle acos", S, "std::atan2(c.norm(), from_dir.dot(to_dir))", "std::acos(std::clamp(from_dir.dot(to_dir), -1.0, 1.0))")
m("ref value angle minmax", S, "std::atan2(c.norm(), from_dir.dot(to_dir))", "std::acos(std::max(-1.0, std::min(1.0, from_dir.dot(to_dir))))")
m("ref value angle order", S, "* 180 / geo::PI;", "* (180.0 / geo::PI);")
m("ref value angle cross", S, "std::atan2(c.norm(), from_dir.dot(to_dir))", "std::atan2(from_dir.cross(to_dir).norm(), to_dir.dot(from_dir))")
m("ref value dia plus", S, "absl::StrFormat(fmt, r * 2)", "absl::StrFormat(fmt, r + r)")
m("ref value dia local", S, "  ps::Text t;\n  t.at = at;\n  constexpr char kPsDia", "  const double diameter = 2 * r;\n  r = diameter / 2;\n  ps::Text t;\n  t.at = at;\n  constexpr char kPsDia")
m("ref place angle else", S, "  if (c.z() > 0) {\n    using std::swap;\n    swap(to_dir, from_dir);\n    swap(to_point, from_point);\n  }", "  if (!(c.z() <= 0)) {\n    std::swap(from_dir, to_dir);\n    std::swap(from_point, to_point);\n  }")
m("ref place rad lines", S, "    AddLines({{center, a}, {a, at}});", "    AddLines({{center, a}});\n    AddLines({{a, at}});")
m("ref place rad heads", S, "      {a, a + (-6 * dir + +2 * cross)},  // Arrow head\n      {a, a + (-6 * dir + -2 * cross)},", "      {a, a - 6 * dir + 2 * cross},  // Arrow head\n      {a, a - 6 * dir - 2 * cross},")
m("ref finite rad reject", S, "  *ret_at = {at.x(), at.y()};\n", "  if (dir.x() == 0 && dir.y() == 0) {\n    SYM_ERROR(dia) << \"'dir' is across the page\";\n    return false;\n  }\n  *ret_at = {at.x(), at.y()};\n")
m("ref finite rad order", S, "if (len > 1 && std::isfinite(len)) {  // Not finite: dir is across the page.\n    Eigen::RowVector2d b = ", "if (std::isfinite(len) && 1 < len) {\n    Eigen::RowVector2d b = ")
m("ref finite dim gap", S, "if (gap * 2 < dim_value * proj.scale) {", "if (dim_value * proj.scale > 2 * gap) {")
m("ref finite dim swap", S, "  if (gap * 2 < dim_value * proj.scale) {  // cmp the gap and dim (in pt's)\n    AddLines({\n        {arrow_from, at - a * gap},\n        {at + a * gap, arrow_to},\n    });\n  } else {\n    AddLines({\n        {arrow_from, arrow_from - a * 10},\n        {arrow_to, arrow_to + a * 10},\n    });\n    a = -a;\n  }", "  const bool wide = gap * 2 < dim_value * proj.scale;\n  if (!wide) {\n    AddLines({\n        {arrow_from, arrow_from - a * 10},\n        {arrow_to, arrow_to + a * 10},\n    });\n    a = -a;\n  } else {\n    AddLines({\n        {arrow_from, at - a * gap},\n        {at + a * gap, arrow_to},\n    });\n  }")
# ---- C47
T = "stl.cc"
m("extent max", T, "maxp.y() = std::max(maxp.y(), e.y());", "maxp.y() = std::min(maxp.y(), e.y());", "C47")
m("extent axis", T, "maxp.y() = std::max(maxp.y(), e.y());", "maxp.y() = std::max(maxp.y(), e.x());", "C47")
m("extent zero", T, "Eigen::RowVector3d minp = facets[0].edge[0];", "Eigen::RowVector3d minp{0, 0, 0};", "C47")
m("extent first corner", T, "    for (const auto& e : f.edge) {\n      minp.x()", "    for (const auto& e : {f.edge[0], f.edge[1]}) {\n      minp.x()", "C47")
m("extent last facet", T, "      minp.x() = std::min(minp.x(), e.x());", "      minp.x() = e.x();", "C47")
m("extent one", T, "      minp.y() = std::min(minp.y(), e.y());\n", "", "C47")
m("ref extent if", T, "      minp.x() = std::min(minp.x(), e.x());", "      if (e.x() < minp.x()) minp.x() = e.x();")
m("ref extent order", T, "      minp.x() = std::min(minp.x(), e.x());", "      minp.x() = std::min(e.x(), minp.x());")
m("ref extent index", T, "    for (const auto& e : f.edge) {\n      minp.x()", "    for (int i = 0; i < 3; i++) {\n      const auto& e = f.edge[i];\n      minp.x()")
m("ref extent infinity", T, "Eigen::RowVector3d minp = facets[0].edge[0];\n  Eigen::RowVector3d maxp = minp;", "const double inf = std::numeric_limits<double>::infinity();\n  Eigen::RowVector3d minp{inf, inf, inf};\n  Eigen::RowVector3d maxp = -minp;")
# ---- found by planting
m("fmt allow ignored", S, "    auto user_fmt = absl::ParsedFormat<'f'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for dim", "    auto user_fmt = absl::ParsedFormat<'f'>::NewAllowIgnored(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for dim", "C12")
m("page number static", S, "  int page_number = 0;\n", "  static int page_number = 0;\n", "C16")
m("ref page number static reset", S, "  int page_number = 0;\n", "  static int page_number;\n  page_number = 0;\n")
m("string piece first", "parser.y", "{ *($$ = $1) += *$2; delete $2; }", "{ $1->insert(0, *$2); $$ = $1; delete $2; }", "C28", "C32")
m("ref string piece insert", "parser.y", "{ *($$ = $1) += *$2; delete $2; }", "{ $2->insert(0, *$1); $$ = $2; delete $1; }")
m("ref string piece insert end", "parser.y", "{ *($$ = $1) += *$2; delete $2; }", "{ $1->insert($1->size(), *$2); $$ = $1; delete $2; }")
m("stl stod", "stl.cc", "    if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {\n      points.push_back({x, y, z});", "    std::string sx, sy, sz;\n    if (RE2::FullMatch(line, re_vertex, &sx, &sy, &sz)) {\n      points.push_back({std::stod(sx), std::stod(sy), std::stod(sz)});", "C39")
mm("ref stl simpleatod", [("stl.cc", "#include \"absl/log/log.h\"\n", "#include \"absl/log/log.h\"\n#include \"absl/strings/numbers.h\"\n"), ("stl.cc", "    if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {\n      points.push_back({x, y, z});", "    std::string sx, sy, sz;\n    if (RE2::FullMatch(line, re_vertex, &sx, &sy, &sz) && absl::SimpleAtod(sx, &x) && absl::SimpleAtod(sy, &y) && absl::SimpleAtod(sz, &z)) {\n      points.push_back({x, y, z});")])
mm("ref stl tryatof", [("stl.cc", "    if (RE2::FullMatch(line, re_vertex, &x, &y, &z)) {\n      points.push_back({x, y, z});", "    const bool is_vertex = RE2::FullMatch(line, re_vertex, &x, &y, &z);\n    if (is_vertex) {\n      points.emplace_back(x, y, z);")])

# ---- a second batch of refactorings
mm("ref b fmt helper", [('stl-to-ps.cc', 'bool Flatten(std::string name,', 'bool ReadFormat(Meta* p, const char* kind, absl::ParsedFormat<\'f\'>* fmt) {\n  if (p == nullptr) return true;\n  std::string text;\n  if (!p->As(&text)) {\n    SYM_ERROR(*p) << "fmt argument for " << kind << " is the wrong type";\n    return false;\n  }\n  auto parsed = absl::ParsedFormat<\'f\'>::New(text);\n  if (!parsed) {\n    SYM_ERROR(*p) << "Invalid fmt argument for " << kind << ": must be a \'%f\' type";\n    return false;\n  }\n  *fmt = std::move(*parsed);\n  return true;\n}\n\nbool Flatten(std::string name,'), ('stl-to-ps.cc', '  absl::ParsedFormat<\'f\'> fmt{"%.1f"};\n  if (p_fmt) {\n    std::string fmt_str;\n    if (!p_fmt->As(&fmt_str)) {\n      SYM_ERROR(*p_fmt) << "fmt argument for angle is the wrong type";\n      return false;\n    }\n    auto user_fmt = absl::ParsedFormat<\'f\'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt)\n          << "Invalid fmt argument for angle: must be a \'%f\' type";\n      return false;\n    }\n    fmt = std::move(*user_fmt);\n  }\n', '  absl::ParsedFormat<\'f\'> fmt{"%.1f"};\n  if (!ReadFormat(p_fmt, "angle", &fmt)) return false;\n'), ('stl-to-ps.cc', '  absl::ParsedFormat<\'f\'> fmt{"%.3f"};\n  if (p_fmt) {\n    std::string fmt_str;\n    if (!p_fmt->As(&fmt_str)) {\n      SYM_ERROR(*p_fmt) << "fmt argument for dia is the wrong type";\n      return false;\n    }\n    auto user_fmt = absl::ParsedFormat<\'f\'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << "Invalid fmt argument for dia: must be a \'%f\' type";\n      return false;\n    }\n    fmt = std::move(*user_fmt);\n  }\n', '  absl::ParsedFormat<\'f\'> fmt{"%.3f"};\n  if (!ReadFormat(p_fmt, "dia", &fmt)) return false;\n'), ('stl-to-ps.cc', '  absl::ParsedFormat<\'f\'> fmt{"%.3f"};\n  if (p_fmt) {\n    std::string fmt_str;\n    if (!p_fmt->As(&fmt_str)) {\n      SYM_ERROR(*p_fmt) << "fmt argument for dim is the wrong type";\n      return false;\n    }\n    auto user_fmt = absl::ParsedFormat<\'f\'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << "Invalid fmt argument for dim: must be a \'%f\' type";\n      return false;\n    }\n    fmt = std::move(*user_fmt);\n  }\n', '  absl::ParsedFormat<\'f\'> fmt{"%.3f"};\n  if (!ReadFormat(p_fmt, "dim", &fmt)) return false;\n'), ('stl-to-ps.cc', '  absl::ParsedFormat<\'f\'> fmt{"%.3f"};\n  if (p_fmt) {\n    std::string fmt_str;\n    if (!p_fmt->As(&fmt_str)) {\n      SYM_ERROR(*p_fmt) << "fmt argument for rad is the wrong type";\n      return false;\n    }\n    auto user_fmt = absl::ParsedFormat<\'f\'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << "Invalid fmt argument for rad: must be a \'%f\' type";\n      return false;\n    }\n    fmt = std::move(*user_fmt);\n  }\n', '  absl::ParsedFormat<\'f\'> fmt{"%.3f"};\n  if (!ReadFormat(p_fmt, "rad", &fmt)) return false;\n')])
mm("ref b missing lambda", [('stl-to-ps.cc', '  if (!p_at) {\n    SYM_ERROR(dim) << "Missing \'at\'";\n    ok = false;\n  }\n  if (!p_dir) {\n    SYM_ERROR(dim) << "Missing \'dir\'";\n    ok = false;\n  }\n  if (!p_from) {\n    SYM_ERROR(dim) << "Missing \'from\'";\n    ok = false;\n  }\n  if (!p_to) {\n    SYM_ERROR(dim) << "Missing \'to\'";\n    ok = false;\n  }\n  if (!ok) return false;\n', '  const auto require = [&](const Meta* p, const char* what) {\n    if (p) return;\n    SYM_ERROR(dim) << "Missing \'" << what << "\'";\n    ok = false;\n  };\n  require(p_at, "at");\n  require(p_dir, "dir");\n  require(p_from, "from");\n  require(p_to, "to");\n  if (!ok) return false;\n')])
mm("ref b missing loop", [('stl-to-ps.cc', '  if (!p_at) {\n    SYM_ERROR(dim) << "Missing \'at\'";\n    ok = false;\n  }\n  if (!p_dir) {\n    SYM_ERROR(dim) << "Missing \'dir\'";\n    ok = false;\n  }\n  if (!p_from) {\n    SYM_ERROR(dim) << "Missing \'from\'";\n    ok = false;\n  }\n  if (!p_to) {\n    SYM_ERROR(dim) << "Missing \'to\'";\n    ok = false;\n  }\n  if (!ok) return false;\n', '  const std::pair<const Meta*, const char*> needed[] = {\n      {p_at, "at"}, {p_dir, "dir"}, {p_from, "from"}, {p_to, "to"}};\n  for (const auto& n : needed) {\n    if (n.first != nullptr) continue;\n    SYM_ERROR(dim) << "Missing \'" << n.second << "\'";\n    ok = false;\n  }\n  if (!ok) return false;\n')])
mm("ref b leftover helper", [('stl-to-ps.cc', 'bool Flatten(std::string name,', '// Reports what is left over.\nbool NoneLeft(const NodeI& node, const std::map<std::string, Meta*>& seen, const char* kind) {\n  if (seen.empty()) return true;\n  SYM_ERROR(node) << "Unexepcted properties for " << kind;\n  for (const auto& p : seen) SYM_ERROR(*p.second) << p.second->name;\n  return false;\n}\n\nbool Flatten(std::string name,'), ('stl-to-ps.cc', '  if (!seen.empty()) {\n    SYM_ERROR(dim) << "Unexepcted properties for angle";\n    for (const auto& p : seen) {\n      SYM_ERROR(*p.second) << p.second->name;\n    }\n    return false;\n  }\n', '  if (!NoneLeft(dim, seen, "angle")) return false;\n'), ('stl-to-ps.cc', '  if (!seen.empty()) {\n    SYM_ERROR(dim) << "Unexepcted properties for dim";\n    for (const auto& p : seen) {\n      SYM_ERROR(*p.second) << p.second->name;\n    }\n    return false;\n  }\n', '  if (!NoneLeft(dim, seen, "dim")) return false;\n'), ('stl-to-ps.cc', '  if (!seen.empty()) {\n    SYM_ERROR(draw) << "Unexepcted properties for draw";\n    for (const auto& p : seen) {\n      SYM_ERROR(*p.second) << p.second->name;\n    }\n    return false;\n  }\n', '  if (!NoneLeft(draw, seen, "draw")) return false;\n'), ('stl-to-ps.cc', '  if (!seen.empty()) {\n    SYM_ERROR(text) << "Unexepcted properties for text";\n    for (const auto& p : seen) {\n      SYM_ERROR(*p.second) << p.second->name;\n    }\n    return false;\n  }\n', '  if (!NoneLeft(text, seen, "text")) return false;\n')])
mm("ref b open helper", [('stl-to-ps.cc', 'bool LoadFiles(const Document& doc,', 'namespace {\nconst std::vector<std::string>& LoadPaths() {\n  static const auto& paths = *new std::vector<std::string>([] {\n    std::vector<std::string> r = absl::StrSplit(absl::GetFlag(FLAGS_load_path), \',\');\n    r.insert(r.begin(), ".");\n    return r;\n  }());\n  return paths;\n}\n\nbool OpenModel(const std::string& file, std::ifstream* model) {\n  if (file.find(\'/\') == 0) {\n    model->open(file, std::ios::in);\n    return model->rdstate() == std::ios_base::goodbit;\n  }\n  for (const auto& p : LoadPaths()) {\n    model->open(p + "/" + file, std::ios::in);\n    if (model->rdstate() == std::ios_base::goodbit) return true;\n  }\n  return false;\n}\n}  // namespace\n\nbool LoadFiles(const Document& doc,'), ('stl-to-ps.cc', '    // Parse out the load path.\n    static auto& load_paths = *new auto([] {\n      std::vector<std::string> r =\n          absl::StrSplit(absl::GetFlag(FLAGS_load_path), \',\');\n      r.insert(r.begin(), ".");\n      return r;\n    }());\n\n    std::ifstream model;\n    if (file.find(\'/\') == 0) {\n      model.open(file, std::ios::in);\n    } else {\n      for (const auto& p : load_paths) {\n        model.open(p + "/" + file, std::ios::in);\n        if (model.rdstate() == std::ios_base::goodbit) break;\n      }\n    }\n    if (model.rdstate() != std::ios_base::goodbit) {\n', '    std::ifstream model;\n    if (!OpenModel(file, &model)) {\n')])
mm("ref b scale method", [('stl-to-ps.cc', '    if (scales.first < 1 || scales.second < 1) {', '    const bool positive = scales.first > 0 && scales.second > 0;\n    if (!positive) {'), ('stl-to-ps.cc', '  proj.scale = 72.0 * scales.first / scales.second;', '  constexpr double kPointsPerInch = 72;\n  proj.scale = kPointsPerInch * scales.first / scales.second;')])
mm("ref b model by at", [('stl-to-ps.cc', '  const auto file = stl_files.find(draw.name);\n  if (file == stl_files.end()) {\n    SYM_ERROR(draw) << "Unknown model \'" << draw.name << "\'";\n    return false;\n  }\n', '  if (stl_files.count(draw.name) == 0) {\n    SYM_ERROR(draw) << "Unknown model \'" << draw.name << "\'";\n    return false;\n  }\n'), ('stl-to-ps.cc', 'file->second->Rotate(rotation)', 'stl_files.at(draw.name)->Rotate(rotation)')])
mm("ref b project lambda", [('stl-to-ps.cc', '  for (auto l : lines) {\n    l.o *= proj.scale;\n    l.t *= proj.scale;\n    l.o += proj.d;\n    l.t += proj.d;\n\n    current_page->lines.push_back(l);\n  }', '  const auto project = [this](const Eigen::RowVector2d& p) {\n    return Eigen::RowVector2d{p * proj.scale + proj.d};\n  };\n  for (const auto& l : lines) {\n    current_page->lines.emplace_back(project(l.o), project(l.t));\n  }')])
mm("ref b centre", [('stl-to-ps.cc', '  proj.d = loc - (page_limit.o + page_limit.t) / 2 * proj.scale;', '  const Eigen::RowVector2d middle = 0.5 * (page_limit.o + page_limit.t);\n  proj.d = loc - proj.scale * middle;')])
mm("ref b pages while", [('stl-to-ps.cc', '    for (const auto& draw : doc_page.draws) {\n      if (!draw->VisitNode(&visitor)) ok = false;\n    }', '    for (auto it = doc_page.draws.begin(); it != doc_page.draws.end(); ++it) {\n      const bool drawn = (*it)->VisitNode(&visitor);\n      ok = ok && drawn;\n    }')])
mm("ref b text lines", [('stl-to-ps.cc', '  for (const auto& s : absl::StrSplit(text.text, "\\n")) {\n    if (!s.empty()) {\n      t.str = std::string(s);\n      current_page->text.push_back(t);\n    }\n    t.at.y() -= 12;\n  }', "  constexpr double kLineHeight = 12;\n  for (absl::string_view line : absl::StrSplit(text.text, '\\n')) {\n    if (!line.empty()) {\n      t.str.assign(line.data(), line.size());\n      current_page->text.push_back(t);\n    }\n    t.at.y() -= kLineHeight;\n  }")])
mm("ref b title", [('stl-to-ps.cc', '  ps::Text title;\n  title.str = name;\n  title.at.x() = text_at;\n  title.at.y() = 8;\n  text.push_back(title);\n', '  text.emplace_back();\n  text.back().str = name;\n  text.back().at = {text_at, 8};\n')])
mm("ref b error once", [('parser_support.cc', '  if (bl == el) {\n    fprintf(stderr, "error %s:%d:[%d,%d]: %s\\n",  //\n            fn, bl, bc, ec, msg.c_str());\n  } else {\n    fprintf(stderr, "error %s:%d:%d to %d:%d: %s\\n",  //\n            fn, bl, bc, el, ec, msg.c_str());\n  }', '  std::string where = ":" + std::to_string(bl) + ":";\n  if (bl == el) {\n    where += "[" + std::to_string(bc) + "," + std::to_string(ec) + "]";\n  } else {\n    where += std::to_string(bc) + " to " + std::to_string(el) + ":" + std::to_string(ec);\n  }\n  fprintf(stderr, "error %s%s: %s\\n", fn, where.c_str(), msg.c_str());')])
mm("ref b main in block", [('stl-to-ps-main.cc', '  std::ifstream in;\n  in.open(absl::GetFlag(FLAGS_script), std::ios::in);\n  CHECK(in.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_script);\n', '  const std::string script = absl::GetFlag(FLAGS_script);\n  std::ifstream in(script, std::ios::in);\n  CHECK(in.good()) << script;\n'), ('stl-to-ps-main.cc', 'stl2ps::ScriptToPS(absl::GetFlag(FLAGS_script), in, out)', 'stl2ps::ScriptToPS(script, in, out)')])
mm("ref b view helper", [('stl-to-ps.cc', 'bool DrawToPage::operator()(const Draw& draw) {', 'namespace {\nbool ReadView(Meta* view, Eigen::Matrix3d* rotation) {\n  Eigen::RowVector2d angles;\n  if (view->As(&angles)) {\n    *rotation = stl2ps::GetMatrixByAng(angles);\n    return true;\n  }\n  std::string name;\n  if (!view->As(&name)) {\n    SYM_ERROR(*view) << "Unexpect view type: " << view->type_name();\n    return false;\n  }\n  if (stl2ps::GetMatrixByName(name, rotation)) return true;\n  SYM_ERROR(*view) << "Unknown view name: \'" << name << "\'";\n  return false;\n}\n}  // namespace\n\nbool DrawToPage::operator()(const Draw& draw) {'), ('stl-to-ps.cc', '    Eigen::RowVector2d loc;\n    std::string name;\n    if (view->As(&loc)) {\n      rotation = stl2ps::GetMatrixByAng(loc);\n    } else if (view->As(&name)) {\n      if (!stl2ps::GetMatrixByName(name, &rotation)) {\n        SYM_ERROR(*view) << "Unknown view name: \'" << name << "\'";\n        return false;\n      }\n    } else {\n      SYM_ERROR(*view) << "Unexpect view type: " << view->type_name();\n      return false;\n    }\n  }\n\n', '    if (!ReadView(view, &rotation)) return false;\n  }\n\n')])
mm("ref b arms helper", [('stl-to-ps.cc', '  if (p_from_dir) {\n    ok &= GetRotated(p_from_dir, &from_dir);\n    from_dir = from_dir.normalized();\n    from_point = apex;\n  } else {\n    ok &= GetRotated(p_from_point, &from_point);\n    from_dir = (from_point - apex).normalized();\n  }\n  if (p_to_dir) {\n    ok &= GetRotated(p_to_dir, &to_dir);\n    to_dir = to_dir.normalized();\n    to_point = apex;\n  } else {\n    ok &= GetRotated(p_to_point, &to_point);\n    to_dir = (to_point - apex).normalized();\n  }\n', '  const auto arm = [&](Meta* p_dir, Meta* p_point, Eigen::RowVector3d* dir,\n                       Eigen::RowVector3d* point) {\n    if (p_dir) {\n      ok &= GetRotated(p_dir, dir);\n      dir->normalize();\n      *point = apex;\n    } else {\n      ok &= GetRotated(p_point, point);\n      *dir = (*point - apex).normalized();\n    }\n  };\n  arm(p_from_dir, p_from_point, &from_dir, &from_point);\n  arm(p_to_dir, p_to_point, &to_dir, &to_point);\n')])
mm("ref b limits minmax", [('stl.cc', '      minp.x() = std::min(minp.x(), e.x());\n      maxp.x() = std::max(maxp.x(), e.x());\n      minp.y() = std::min(minp.y(), e.y());\n      maxp.y() = std::max(maxp.y(), e.y());\n', '      minp = minp.cwiseMin(e);\n      maxp = maxp.cwiseMax(e);\n')])
mm("ref b points nested", [('stl.cc', '  for (const auto& f : facets)\n    for (const auto& e : f.edge) ret.insert(e);\n', '  for (const auto& f : facets) {\n    ret.insert(f.edge[0]);\n    ret.insert(f.edge[1]);\n    ret.insert(f.edge[2]);\n  }\n')])
mm("ref b header title str", [('ps.cc', '    Text t;\n    t.at = {7, 7};\n    t.str = absl::StrJoin(meta, " ");\n    TextToPs({t}, out);\n', '    std::vector<Text> line(1);\n    line[0].at = {7, 7};\n    line[0].str = absl::StrJoin(meta, " ");\n    TextToPs(line, out);\n')])
mm("ref b getcenter lambda", [('stl-to-ps.cc', '  if (!p_at) {\n    SYM_ERROR(dia) << "Missing \'at\'";\n    ok = false;\n  }\n  if (!p_dir) {\n    SYM_ERROR(dia) << "Missing \'dir\'";\n    ok = false;\n  }\n  if (!p_center) {\n    SYM_ERROR(dia) << "Missing \'center\'";\n    ok = false;\n  }\n  if (!ok) return false;\n', '  for (auto& need : {std::make_pair(p_at, "at"), std::make_pair(p_dir, "dir"),\n                     std::make_pair(p_center, "center")}) {\n    if (need.first) continue;\n    SYM_ERROR(dia) << "Missing \'" << need.second << "\'";\n    ok = false;\n  }\n  if (!ok) return false;\n')])
mm("limits cwise swapped", [('stl.cc', '      minp.x() = std::min(minp.x(), e.x());\n      maxp.x() = std::max(maxp.x(), e.x());\n      minp.y() = std::min(minp.y(), e.y());\n      maxp.y() = std::max(maxp.y(), e.y());\n', '      minp = minp.cwiseMin(e);\n      maxp = maxp.cwiseMin(e);\n')], "C47")
mm("error tostring wrong column", [('parser_support.cc', '  if (bl == el) {\n    fprintf(stderr, "error %s:%d:[%d,%d]: %s\\n",  //\n            fn, bl, bc, ec, msg.c_str());\n  } else {\n    fprintf(stderr, "error %s:%d:%d to %d:%d: %s\\n",  //\n            fn, bl, bc, el, ec, msg.c_str());\n  }', '  std::string where = ":" + std::to_string(bl) + ":";\n  if (bl == el) {\n    where += "[" + std::to_string(bc) + "," + std::to_string(bc) + "]";\n  } else {\n    where += std::to_string(bc) + " to " + std::to_string(el) + ":" + std::to_string(ec);\n  }\n  fprintf(stderr, "error %s%s: %s\\n", fn, where.c_str(), msg.c_str());')], "C36")
