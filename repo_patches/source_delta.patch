From fded1d2d08392cd53dc704372cd3e4aecde25a37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 01/16] fix: reject STL facets that do not have exactly three
 vertices

A facet with fewer vertices was read out of bounds, one with more was
silently truncated.
---
 stl-to-ps/stl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index b8a184a..593cade 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -109,6 +109,11 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
         LOG(WARNING) << line_number << ": missing normal";
         continue;
       } else {
+        if (points.size() != 3) {
+          LOG(ERROR) << line_number << ": Facet with " << points.size()
+                     << " vertices";
+          return nullptr;
+        }
         ret->facets.emplace_back(norm, points);
       }
       norm = geo::point::zero;
-- 
2.43.0


From 279d4dd49a46ff90a456a6babc989962ab111001 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 02/16] fix: do not take a read error for the end of an STL
 file

---
 stl-to-ps/stl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl.cc b/stl-to-ps/stl.cc
index 593cade..ae6ac03 100644
--- a/stl-to-ps/stl.cc
+++ b/stl-to-ps/stl.cc
@@ -131,6 +131,10 @@ std::unique_ptr<STLFile> STLFile::Make(std::istream& in) {
     LOG(ERROR) << line_number << ": Unknown line: '" << line << "'";
     return nullptr;
   }
+  if (in.bad()) {
+    LOG(ERROR) << "Read error after line " << line_number;
+    return nullptr;
+  }
   LOG(INFO) << "lines:" << line_number << " solid:" << solid << " loop:" << loop
             << " facets:" << ret->facets.size();
   ret->Index();
-- 
2.43.0


From dcdcfc4fb7574fa2b1cc56681e6e924ef4f5146e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 03/16] fix: fail when the output cannot be written completely

---
 stl-to-ps/stl-to-ps-main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stl-to-ps/stl-to-ps-main.cc b/stl-to-ps/stl-to-ps-main.cc
index 1345ea0..d680fec 100644
--- a/stl-to-ps/stl-to-ps-main.cc
+++ b/stl-to-ps/stl-to-ps-main.cc
@@ -66,6 +66,10 @@ int main(int argc, char** argv) {
 
   in.close();
   out.close();
+  if (ret && out.fail()) {
+    LOG(ERROR) << "Failed to write " << absl::GetFlag(FLAGS_output);
+    return 1;
+  }
 
   return ret ? 0 : 1;
 }
-- 
2.43.0


From 25eb9902d2c771d4a15b2ca798ffb6f37ed3512c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 04/16] fix: escape the number format of a diameter label

The label is emitted raw, so a fmt with a parenthesis broke out of the
PostScript string.
---
 stl-to-ps/stl-to-ps.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 0695e7c..3c8c747 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -40,6 +40,7 @@
 #include "absl/log/log.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/str_split.h"
 #include "absl/strings/string_view.h"
 #include "re2/re2.h"
@@ -522,7 +523,11 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
   ps::Text t;
   t.at = at;
   constexpr char kPsDia[] = "\\351";
-  t.str = absl::StrCat(kPsDia, absl::StrFormat(fmt, r * 2));
+  // The text is emitted raw, so the part the user controls is escaped here.
+  t.str = absl::StrCat(
+      kPsDia,
+      absl::StrReplaceAll(absl::StrFormat(fmt, r * 2),
+                          {{"\\", "\\\\"}, {"(", "\\("}, {")", "\\)"}}));
   t.raw = true;
   t.center = true;
   // Offset for width of text.  TODO deal with left side placements
-- 
2.43.0


From 8dbb9460cdc283f9e3796ff402bfcbed9f5f2221 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 05/16] fix: keep the document name and source inside the
 header comment

A line break in --name or in the path of the script was emitted as
PostScript.
---
 stl-to-ps/ps.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/ps.cc b/stl-to-ps/ps.cc
index 31dfdba..9d2eefc 100644
--- a/stl-to-ps/ps.cc
+++ b/stl-to-ps/ps.cc
@@ -41,6 +41,14 @@ ABSL_FLAG(bool, number_pages, true, "Include page numbers on each page");
 
 namespace ps {
 namespace impl {
+// Text for use in a comment: anything that would end the comment is blanked.
+std::string Comment(std::string s) {
+  for (char& c : s) {
+    if (c == '\n' || c == '\r' || c == '\f') c = ' ';
+  }
+  return s;
+}
+
 std::string Now() {
   const static auto ret = [] {
     absl::TimeZone tz;
@@ -77,7 +85,8 @@ void DocumentHeader(const std::string& src, std::ostream& out) {
 FontSize scalefont setfont
 % End File Header %%%%%%
 )",
-                          absl::GetFlag(FLAGS_name), src, impl::Now(), kFontSize)
+                          impl::Comment(absl::GetFlag(FLAGS_name)),
+                          impl::Comment(src), impl::Now(), kFontSize)
       << std::endl;
 }
 
-- 
2.43.0


From 3cc7cfdbc7e0f127b09e4e815121c1a6f757bd8a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 06/16] fix: report why a point function failed

A script could fail without any message.
---
 stl-to-ps/ast.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 75512ef..740db56 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -53,7 +53,10 @@ bool PointFunc::Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) {
 }
 
 bool PointFunc::Near(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.empty()) return false;
+  if (ps.empty()) {
+    SYM_ERROR(*this) << "No points for 'near'";
+    return false;
+  }
 
   Eigen::RowVector3d target;
   if (!p_->Invoke(ps, &target)) return false;
@@ -125,7 +128,10 @@ std::vector<Eigen::RowVector2d> Between(
 
 // NOTE: this uses a rather primitive huristic
 bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
-  if (ps.size() < 3) return false;
+  if (ps.size() < 3) {
+    SYM_ERROR(*this) << "Not enough points for 'center'";
+    return false;
+  }
 
   Eigen::RowVector3d target3;
   if (!p_->Invoke(ps, &target3)) return false;
@@ -141,14 +147,20 @@ bool PointFunc::Center(const geo::point_set& ps, Eigen::RowVector3d* ret) {
   // Find the center of the circle they form
   Eigen::RowVector2d center;
   double rad;
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Find points of about the right distance from the presumed center.
   const double del = 0.1;
   near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);
 
   // Find the center of the "circle" this (preumably) larger set of points form.
-  if (!FindCircle(near, &center, &rad)) return false;
+  if (!FindCircle(near, &center, &rad)) {
+    SYM_ERROR(*this) << "Failed to find center";
+    return false;
+  }
 
   // Convert back to 3d and return.
   *ret = {center.x(), center.y(), 0};
-- 
2.43.0


From 0c77f0abb9ef45b43b1eadedf19bbc3a1a760418 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 07/16] fix: always give 'near' a point of the model

With distances that overflow no point was ever chosen and the result was
left unassigned.
---
 stl-to-ps/ast.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 740db56..ca05d14 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -67,6 +67,7 @@ bool PointFunc::Near(const geo::point_set& ps, Eigen::RowVector3d* ret) {
   target = {target.x(), target.y(), 0};
 
   double r = std::numeric_limits<double>::max();
+  *ret = {ps.begin()->x(), ps.begin()->y(), 0};
 
   for (auto x : ps) {
     x = {x.x(), x.y(), 0};
-- 
2.43.0


From 0dd44433d4de1da69ab2327839e9d00842ece483 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 08/16] fix: report numbers that are out of range

std::stof throws on them, which nothing caught.
---
 stl-to-ps/lexer.l | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index b00215c..f1677bc 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -32,6 +32,9 @@
 // lexer.yy.cc can't allow include lexer.yy.h so pretend it's already happened
 #define stl2psHEADER_H
 
+#include <cmath>
+#include <cstdlib>
+
 #include "parser/parser_support.h"
 #include "stl-to-ps/ast.h"
 #include "stl-to-ps/gen.lexer.h"
@@ -41,6 +44,12 @@ typedef stl2ps_parser::parser::token T;
 
 int stl2psget_column(stl2psscan_t scanner);
 
+// The value of a number, false if it can't be represented.
+bool ParseNumber(const char* text, float* value) {
+  *value = std::strtof(text, nullptr);
+  return std::isfinite(*value);
+}
+
 #define YY_USER_ACTION do {                          \
     auto* loc = stl2psget_lloc(yyscanner);           \
     int line = stl2psget_lineno(yyscanner);          \
@@ -93,8 +102,8 @@ rad   return T::RAD;
 text  return T::TEXT;
 
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
-[-+]?[0-9]+(\.[0-9]*)?      { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
-[-+]?\.[0-9]+               { yylval_param->fp  = std::stof(yytext);        return T::NUM; }
+[-+]?[0-9]+(\.[0-9]*)?      { if (!ParseNumber(yytext, &yylval_param->fp)) { stl2pserror(yyscanner); return 256; } return T::NUM; }
+[-+]?\.[0-9]+               { if (!ParseNumber(yytext, &yylval_param->fp)) { stl2pserror(yyscanner); return 256; } return T::NUM; }
 \"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
-- 
2.43.0


From 16ac353aa54815ed4008f41a364bce37f1a6a5b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 09/16] fix: keep NUL characters in string literals

The literal was cut at the first one and lost a further character.
---
 stl-to-ps/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/lexer.l b/stl-to-ps/lexer.l
index f1677bc..6671d58 100644
--- a/stl-to-ps/lexer.l
+++ b/stl-to-ps/lexer.l
@@ -104,7 +104,7 @@ text  return T::TEXT;
 [a-zA-Z_][a-zA-Z0-9_]*      { yylval_param->str = new std::string(yytext);  return T::ID; }
 [-+]?[0-9]+(\.[0-9]*)?      { if (!ParseNumber(yytext, &yylval_param->fp)) { stl2pserror(yyscanner); return 256; } return T::NUM; }
 [-+]?\.[0-9]+               { if (!ParseNumber(yytext, &yylval_param->fp)) { stl2pserror(yyscanner); return 256; } return T::NUM; }
-\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(yytext); return T::STRING_LIT; }
+\"([^"\\\n]|\\['"?\\n])*\"  { yylval_param->str = stl2ps::NewQuote(std::string(yytext, yyleng)); return T::STRING_LIT; }
 
 [ \t\n\r]    ;
 \/\/.*      ;
-- 
2.43.0


From 600fe29c98968c30be8da081eacebd1cb0b44162 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 10/16] fix: do not rotate the points of the document in place

Generating the pages of one document twice rotated every point twice.
---
 stl-to-ps/ast.h        | 9 +++++++++
 stl-to-ps/stl-to-ps.cc | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.h b/stl-to-ps/ast.h
index 6d1a21c..3aa4d81 100644
--- a/stl-to-ps/ast.h
+++ b/stl-to-ps/ast.h
@@ -96,6 +96,7 @@ class Point : public NodeI {
 
   virtual void Rotate(Eigen::Matrix3d rot) = 0;
   virtual bool Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) = 0;
+  virtual std::unique_ptr<Point> Clone() const = 0;
 };
 
 class Val final : public Point {
@@ -107,6 +108,9 @@ class Val final : public Point {
     *ret = p_;
     return true;
   }
+  std::unique_ptr<Point> Clone() const override {
+    return std::unique_ptr<Point>(new Val(*this));
+  }
 
  private:
   Eigen::RowVector3d p_;
@@ -131,6 +135,11 @@ class PointFunc final : public Point {
 
   void Rotate(Eigen::Matrix3d rot) override { p_->Rotate(rot); }
   bool Invoke(const geo::point_set& ps, Eigen::RowVector3d* ret) override;
+  std::unique_ptr<Point> Clone() const override {
+    return std::unique_ptr<Point>(
+        new PointFunc(std::unique_ptr<std::string>(new std::string(name_)),
+                      p_->Clone(), location()));
+  }
 
  private:
   bool Near(const geo::point_set& ps, Eigen::RowVector3d* ret);
diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 3c8c747..a3a2442 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -306,7 +306,8 @@ bool DrawToPage::GetCenter(const BaseDim& dia,
 bool DrawToPage::GetRotated(stl2ps::Meta* p_in, Eigen::RowVector3d* p_out) {
   CHECK(rotation_ != Eigen::Matrix3d{}) << "Null rotation";
 
-  if (auto p = p_in->get<Point>()) {
+  if (auto orig = p_in->get<Point>()) {
+    auto p = orig->Clone();  // The document must not be changed.
     p->Rotate(rotation_);
     if (!p->Invoke(points_, p_out)) {
       return false;
-- 
2.43.0


From 33e77e47d5adf546152b1903a0a9020d8d53371c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 11/16] fix: reject scales that are not a ratio of positive
 integers

Fractions were silently truncated and a zero or negative part produced
degenerate output.
---
 stl-to-ps/parser.y     | 14 +++++++++++++-
 stl-to-ps/stl-to-ps.cc |  4 ++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/parser.y b/stl-to-ps/parser.y
index 703454c..2065381 100644
--- a/stl-to-ps/parser.y
+++ b/stl-to-ps/parser.y
@@ -50,6 +50,11 @@ using stl2ps::PointFunc;
 using stl2ps::Scale;
 
 namespace {
+// Can a number be used, as it is, as part of a scale.
+bool IsScale(float f) {
+  return f >= 1 && f <= 1e9f && f == static_cast<int>(f);
+}
+
 int stl2ps_parserlex(stl2ps_parser::parser::semantic_type* o,
                      stl2ps_parser::parser::location_type* l, stl2psscan_t s) {
   return stl2pslex(o, l, s);
@@ -134,7 +139,14 @@ arg : ID '=' string_lit
     | ID '=' location
          { $$ = Meta::New<Eigen::RowVector2d>($1, $3, @1).release(); }
     | ID '=' NUM ':' NUM
-         { $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release(); }
+         {
+           if (!IsScale($3) || !IsScale($5)) {
+             error(@3, "scale must be a ratio of positive integers");
+             delete $1;
+             YYERROR;
+           }
+           $$ = Meta::New<Scale>($1, Scale{$3, $5}, @1).release();
+         }
     | '@' location
          { $$ = Meta::New<Eigen::RowVector2d>("@", $2, @1).release(); }
     ;
diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index a3a2442..476687b 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -675,6 +675,10 @@ bool DrawToPage::operator()(const Draw& draw) {
       SYM_ERROR(*s) << "Wrong type for scale";
       return false;
     }
+    if (scales.first < 1 || scales.second < 1) {
+      SYM_ERROR(*s) << "Scale must be positive";
+      return false;
+    }
   }
   proj.scale = 72.0 * scales.first / scales.second;
 
-- 
2.43.0


From 8a52a5c82ba14749103d59ff97644a7688cd5d08 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 12/16] fix: Closest() gave up on farther points before it had
 count of them

---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index ca05d14..6a46468 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -92,7 +92,7 @@ std::vector<Eigen::RowVector2d> Closest(
   for (const auto& p : ps) {
     auto d = (p - to).squaredNorm();
     // Skip anything already too far away.
-    if (!c.empty() && d > c.rbegin()->first) continue;
+    if (static_cast<int>(c.size()) >= count && d > c.rbegin()->first) continue;
 
     // Check if this point (or one very close to it) has already been collected
     // (if so; reject it).
-- 
2.43.0


From efc3d9e95585eee08d605d2fde90d1d8d39fea81 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 13/16] fix: Closest() collected a point twice when it lay
 exactly at the target

---
 stl-to-ps/ast.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/ast.cc b/stl-to-ps/ast.cc
index 6a46468..a0b8d2f 100644
--- a/stl-to-ps/ast.cc
+++ b/stl-to-ps/ast.cc
@@ -98,7 +98,7 @@ std::vector<Eigen::RowVector2d> Closest(
     // (if so; reject it).
     auto r = c.equal_range(d);
     auto pred = [&p, d](const decltype(c)::value_type& i) {
-      return (p - i.second).squaredNorm() < d * .01;
+      return (p - i.second).squaredNorm() <= d * .01;
     };
     if (std::find_if(r.first, r.second, pred) != r.second) continue;
 
-- 
2.43.0


From 9527463a743956370692a02fe33e1f15f50efaa6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 14/16] fix: FindCircle() succeeded with a centre that is not
 finite for points on a line

---
 stl-to-ps/center.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stl-to-ps/center.cc b/stl-to-ps/center.cc
index c020d22..75215e7 100644
--- a/stl-to-ps/center.cc
+++ b/stl-to-ps/center.cc
@@ -61,7 +61,7 @@ bool FindCircle(const std::vector<Eigen::RowVector2d>& points,
   center->x() = res.x();
   center->y() = res.y();
   *rad = std::sqrt(res.z() + std::pow(res.x(), 2) + std::pow(res.y(), 2));
-  return true;
+  return std::isfinite(*rad);  // Points on a line have no circle.
 }
 
 }  // namespace stl2ps
-- 
2.43.0


From fadef3a07cbab9cf15c7b89b612dfaa88ef8f699 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:47 +0000
Subject: [PATCH 15/16] fix: angle printed 'nan' for nearly parallel
 directions, whose dot product is rounded to beyond 1

---
 stl-to-ps/stl-to-ps.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index 476687b..e57942e 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -452,7 +452,8 @@ bool DrawToPage::operator()(const Angle& dim) {
   });
 
   ps::Text t;
-  double ang = std::acos(from_dir.dot(to_dir.normalized())) * 180 / geo::PI;
+  // Not acos: the dot product of two unit vectors can be rounded to beyond 1.
+  double ang = std::atan2(c.norm(), from_dir.dot(to_dir)) * 180 / geo::PI;
   t.at.x() = at.x();
   t.at.y() = at.y();
   t.str = absl::StrCat(absl::StrFormat(fmt, ang), " deg");
-- 
2.43.0


From 7f8269637b020d3346560e915a8f9d571f101c67 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:47 +0000
Subject: [PATCH 16/16] fix: rad and dia drew lines to 'nan nan' when dir has
 no extent in the plane of the page

---
 stl-to-ps/stl-to-ps.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stl-to-ps/stl-to-ps.cc b/stl-to-ps/stl-to-ps.cc
index e57942e..f4fb5ac 100644
--- a/stl-to-ps/stl-to-ps.cc
+++ b/stl-to-ps/stl-to-ps.cc
@@ -506,7 +506,7 @@ bool DrawToPage::RenderDia(std::map<std::string, Meta*>* seen, const NodeI& dia,
 
   Eigen::RowVector2d direct = at - center;
   double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());
-  if (len > 1) {
+  if (len > 1 && std::isfinite(len)) {  // Not finite: dir is across the page.
     Eigen::RowVector2d c = center + dir * len;
     AddLines({{b, c}, {c, at}});
   } else {
@@ -779,7 +779,7 @@ bool DrawToPage::RenderRad(std::map<std::string, Meta*>* seen, const NodeI& rad,
   // TODO, Do a better job here.
   Eigen::RowVector2d direct = at - center;
   double len = std::min(direct.x() / dir.x(), direct.y() / dir.y());
-  if (len > 1) {
+  if (len > 1 && std::isfinite(len)) {  // Not finite: dir is across the page.
     Eigen::RowVector2d b = center + dir * len;
     AddLines({{center, b}, {b, at}});
   } else {
-- 
2.43.0

