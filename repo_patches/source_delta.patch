From f9df971d63b65601c390e967da5a4f81e84e6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 01/52] fix: evaluate prescribed velocities at the initial time
 in the first time plane

The conditions of the first plane were evaluated at time zero, whatever the
initial time of the run.
---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index c3bfa32..9e45e9e 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -144,7 +144,7 @@ ExplicitTimeIntegrator::Integrate()
 
   watch_simulation.push_region("BC enforcement");
   model_data.ApplyInitialConditions(data_manager);
-  model_data.ApplyKinematicConditions(data_manager, 0.0, 0.0);
+  model_data.ApplyKinematicConditions(data_manager, initial_time, initial_time);
   watch_simulation.pop_region_and_report_time();
 
   data_manager.WriteOutput(time_current);
-- 
2.43.0


From 5faf48f096fa72b41e119cc4388bf9ae4d0dc585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 02/52] fix: refuse a boundary condition without a readable
 magnitude

A missing or non-numeric magnitude silently became zero.
---
 src/nimble_boundary_condition.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nimble_boundary_condition.cc b/src/nimble_boundary_condition.cc
index e9166c0..95b9e04 100644
--- a/src/nimble_boundary_condition.cc
+++ b/src/nimble_boundary_condition.cc
@@ -111,7 +111,9 @@ BoundaryCondition::Initialize(
     expression_        = ExpressionParsing::BoundaryConditionFunctor(expression_string_);
   } else if (num_quotes == 0) {
     has_expression_ = false;
-    ss >> magnitude_;  // DJL valgrind complains about this
+    if (!(ss >> magnitude_)) {
+      throw std::invalid_argument("Error processing boundary condition, missing or invalid magnitude: " + bc_string);
+    }
   } else {
     throw std::invalid_argument("Error processing boundary condition, illegal number of quotes: " + bc_string);
   }
-- 
2.43.0


From c6e15f9c93b335230b84d6d8798c2bbbf4f89790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 03/52] fix: accept blanks inside parentheses in expressions

"2 * ( x )" was refused because the blanks exposed by removing the
parentheses were kept.
---
 src/nimble_expression_parser.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index 14e65fb..d856d89 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -165,9 +165,14 @@ ExpressionParsing::RemoveRedundantParenthesis(ExpressionParsing::Reader& text)
 void
 ExpressionParsing::ApplyNecessaryFormatting(ExpressionParsing::Reader& text)
 {
-  if (text.IsEmpty()) return;
-  RemoveWhitespace(text);
-  RemoveRedundantParenthesis(text);
+  // Removing parentheses can expose blanks and the other way around
+  unsigned int length;
+  do {
+    length = text.length;
+    if (text.IsEmpty()) return;
+    RemoveWhitespace(text);
+    RemoveRedundantParenthesis(text);
+  } while (text.length != length);
 }
 
 ExpressionParsing::RealValuedExpression*
-- 
2.43.0


From ee79645e485f93e36afbc65a589ef7eb2b37995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 04/52] fix: parse negated conditions in expressions

The operand of '!' extended one character beyond the end of the condition,
and a '!' anywhere in the condition dropped the characters before it.
---
 src/nimble_expression_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 02b4274..9040f3b 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -654,7 +654,7 @@ class EquationContext
       return mem.New<GenericAnd<bool, bool, bool>>(
           ParseBooleanExpression(r.sub(r.first, r.pos)), ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
-    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(r.first + 1, r.length)));
+    if (*r.first == '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(1, r.length)));
 
     if (r << '>') {
       if (r.first[r.pos + 1] == '=')
-- 
2.43.0


From a7d0d20f4866135dcee4c87f7e8827225dfdc803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 05/52] fix: parse signs and negation in expressions with the
 usual precedence

"3-x*-2" was read as (3-x)*-2, "2-3^-1" as (2-3)^-1 and "-x^2" as (-x)^2,
while "5-1e-3", "e-1" and "2*1e+3" were refused: the search for the last
plus or minus stopped at signs of operands and exponents.
---
 src/nimble_expression_parser.cc | 21 +++++++++++++++++++++
 src/nimble_expression_parser.h  | 27 +++++++++++----------------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index d856d89..40d6b9d 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -122,6 +122,27 @@ ExpressionParsing::IsNumber(ExpressionParsing::Reader r)
   return true;
 }
 
+// Moves to the last '+' or '-' outside parentheses that joins two terms; signs
+// of operands and of the exponents of numbers do not.
+bool
+ExpressionParsing::FindBinaryPlusMinus(ExpressionParsing::Reader& r)
+{
+  const char* f = r.first;
+  for (r.pos = r.length - 1; r.pos > 0 && r.pos < r.length; r.Prev('(', ')')) {
+    if (f[r.pos] != '+' && f[r.pos] != '-') continue;
+    unsigned int prev = r.pos - 1;
+    while (prev > 0 && f[prev] == ' ') prev--;
+    if (std::strchr(" *+-/^%(", f[prev]) != nullptr) continue;
+    if (f[r.pos - 1] == 'e') {
+      unsigned int start = r.pos - 1;
+      while (start > 0 && (IsDigit(f[start - 1]) || f[start - 1] == '.')) start--;
+      if (start < r.pos - 1) continue;
+    }
+    return true;
+  }
+  return false;
+}
+
 void
 ExpressionParsing::ConvertStringToLowercase(std::string& s)
 {
diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 9040f3b..653ab48 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -507,6 +507,9 @@ IsInteger(Reader r);
 bool
 IsNumber(Reader r);
 
+bool
+FindBinaryPlusMinus(Reader& r);
+
 void
 ConvertStringToLowercase(std::string& s);
 
@@ -598,20 +601,11 @@ class EquationContext
     if (r << '%')
       return mem.New<DoubleMod>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '+')
-      return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-
-    if (r << '-') {
-      // We need to ensure that we found a minus sign and not a value negation
-      while (r.pos > 0 && (r.first[r.pos] == '-' || r.first[r.pos] == ' ')) r.pos--;
-      if (r.pos > 0 || r.first[r.pos] != '-') {
-        char c = r.first[r.pos];
-        if (c != '*' && c != '/' && c != '^' && c != 'e' && c != '=' && c != '<' && c != '~' && c != '>') {
-          while (r.first[r.pos] != '-') r.pos++;  // Moves it back to the last minus sign
-          return mem.New<DoubleSubtract>(
-              ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-        }
-      }
+    if (FindBinaryPlusMinus(r)) {
+      RealValuedExpression* lhs = ParseEquation(r.sub(r.first, r.pos));
+      RealValuedExpression* rhs = ParseEquation(r.sub(r.pos + 1, r.length));
+      if (r.first[r.pos] == '+') return mem.New<DoubleAdd>(lhs, rhs);
+      return mem.New<DoubleSubtract>(lhs, rhs);
     }
 
     if (r << '*')
@@ -620,6 +614,9 @@ class EquationContext
     if (r << '/')
       return mem.New<DoubleDivide>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
+    // Negation binds weaker than exponentiation
+    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
+
     if (r >> '^') {
       RealValuedExpression* base       = ParseEquation(r.sub(r.first, r.pos));
       Reader                power_text = r.sub(r.pos + 1, r.length);
@@ -630,8 +627,6 @@ class EquationContext
         return mem.New<DoublePow>(base, ParseEquation(power_text));
     }
 
-    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
-
     return 0;
   }
 
-- 
2.43.0


From 46cfabb6d9d8245a2f17f03bd0a19fb8778edd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 06/52] fix: refuse empty conditions in expressions

"? 2 : 3" and "=?1:2" read outside the expression and crashed.
---
 src/nimble_expression_parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 653ab48..202ae91 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -634,6 +634,7 @@ class EquationContext
   ParseBooleanExpression(Reader r)
   {
     ApplyNecessaryFormatting(r);
+    if (r.IsEmpty()) throw std::invalid_argument("Can't parse empty condition");
     if (r == "true") return mem.New<BooleanConstant>(true);
     if (r == "false") return mem.New<BooleanConstant>(false);
 
@@ -678,7 +679,7 @@ class EquationContext
     }*/
 
     if (r << '=') {
-      if (r.first[r.pos - 1] == '=')
+      if (r.pos > 0 && r.first[r.pos - 1] == '=')
         return mem.New<GenericEqual<bool, double, double>>(
             ParseEquation(r.sub(r.pos + 1, r.length)), ParseEquation(r.sub(r.first, r.pos - 1)));
     }
-- 
2.43.0


From 723d4868993708dcf77460e82c45a7195b933360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 07/52] fix: read deck lines of any length and with any blanks,
 tabs or line ends

A line of only blanks (or an indented comment) threw from substr, a line of
1000 characters or more never ended, and tabs after the colon or blanks
before it became part of the value or the key.
---
 src/nimble_parser.cc | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index fd63ec9..88a3690 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -54,6 +54,20 @@
 
 namespace nimble {
 
+namespace {
+
+std::string
+StripWhitespace(std::string const& str)
+{
+  const char* whitespace = " \t\r";
+  size_t      first      = str.find_first_not_of(whitespace);
+  if (first == std::string::npos) { return std::string(); }
+  size_t last = str.find_last_not_of(whitespace);
+  return str.substr(first, last - first + 1);
+}
+
+}  // namespace
+
 std::string
 IOFileName(
     std::string const& serial_name,
@@ -196,9 +210,6 @@ Parser::Initialize()
 void
 Parser::ReadFile()
 {
-  int         max_chars_per_line = 1000;
-  std::string delimiter(" ");
-
   std::ifstream fin;
   fin.open(file_name_.c_str());
   if (!fin.good()) {
@@ -206,29 +217,25 @@ Parser::ReadFile()
     throw std::invalid_argument(msg);
   }
 
-  while (!fin.eof()) {
-    char buf[max_chars_per_line];
-    fin.getline(buf, max_chars_per_line);
-    std::string line(buf);
-
+  std::string line;
+  while (std::getline(fin, line)) {
     // Strip out comments (# character)
     size_t pound_pos = line.find("#");
     if (pound_pos != std::string::npos) { line = line.substr(0, pound_pos); }
     // Strip out leading and trailing whitespace
-    if (line.size() > 0) {
-      size_t start_pos = line.find_first_not_of(" \t");
-      size_t end_pos   = line.find_last_not_of(" \t");
-      line             = line.substr(start_pos, end_pos - start_pos + 1);
-    }
+    line = StripWhitespace(line);
 
     if (line.size() > 0) {
       // Obtain key and value
       // Commands are delimited with a colon
       size_t      colon_pos = line.find(":");
-      std::string key       = line.substr(0, colon_pos);
-      key                   = key.substr(key.find_first_not_of(" "), key.find_last_not_of(" ") + 1);
-      std::string value     = line.substr(colon_pos + 1, line.size());
-      value                 = value.substr(value.find_first_not_of(" "), value.find_last_not_of(" ") + 1);
+      std::string key       = StripWhitespace(line.substr(0, colon_pos));
+      std::string value;
+      if (colon_pos != std::string::npos) { value = StripWhitespace(line.substr(colon_pos + 1)); }
+      if (value.empty()) {
+        std::string msg = "\n**** Error in Parser::ReadFile(), no value given for \"" + key + "\"\n";
+        throw std::invalid_argument(msg);
+      }
 
       ParseKeyValue(key, value);
     }
-- 
2.43.0


From 19cd2b627b0aae5a0a0bc1dc018ba2b068f2a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 08/52] fix: refuse deck values that are not numbers

atof and atoi turned text, trailing characters and integers in scientific
notation into some other number without a word.
---
 src/nimble_parser.cc | 45 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 88a3690..78122f0 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -44,10 +44,12 @@
 #include "nimble_parser.h"
 
 #include <algorithm>
+#include <cerrno>
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -66,6 +68,35 @@ StripWhitespace(std::string const& str)
   return str.substr(first, last - first + 1);
 }
 
+[[noreturn]] void
+RefuseValue(std::string const& key, std::string const& value)
+{
+  std::string msg = "\n**** Error in Parser::ReadFile(), unexpected value for \"" + key + "\" " + value + "\n";
+  throw std::invalid_argument(msg);
+}
+
+double
+ParseDouble(std::string const& key, std::string const& value)
+{
+  char*  end    = nullptr;
+  double number = std::strtod(value.c_str(), &end);
+  if (end == value.c_str() || *end != '\0') { RefuseValue(key, value); }
+  return number;
+}
+
+int
+ParseInt(std::string const& key, std::string const& value)
+{
+  char* end    = nullptr;
+  errno        = 0;
+  long  number = std::strtol(value.c_str(), &end, 10);
+  if (end == value.c_str() || *end != '\0' || errno == ERANGE || number < std::numeric_limits<int>::min() ||
+      number > std::numeric_limits<int>::max()) {
+    RefuseValue(key, value);
+  }
+  return static_cast<int>(number);
+}
+
 }  // namespace
 
 std::string
@@ -282,17 +313,17 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "time integration scheme") {
     time_integration_scheme_ = value;
   } else if (key == "nonlinear solver relative tolerance") {
-    nonlinear_solver_relative_tolerance_ = std::atof(value.c_str());
+    nonlinear_solver_relative_tolerance_ = ParseDouble(key, value);
   } else if (key == "nonlinear solver maximum iterations") {
-    nonlinear_solver_max_iterations_ = std::atoi(value.c_str());
+    nonlinear_solver_max_iterations_ = ParseInt(key, value);
   } else if (key == "initial time") {
-    initial_time_ = std::atof(value.c_str());
+    initial_time_ = ParseDouble(key, value);
   } else if (key == "final time") {
-    final_time_ = std::atof(value.c_str());
+    final_time_ = ParseDouble(key, value);
   } else if (key == "number of load steps") {
-    num_load_steps_ = std::atoi(value.c_str());
+    num_load_steps_ = ParseInt(key, value);
   } else if (key == "output frequency") {
-    output_frequency_ = std::atoi(value.c_str());
+    output_frequency_ = ParseInt(key, value);
   } else if (key == "contact") {
     contact_string_ = value;
   } else if (key == "contact backend") {
@@ -334,7 +365,7 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "output fields") {
     output_field_string_ = value;
   } else if (key == "contact dicing") {
-    int tmp = std::atoi(value.c_str());
+    int tmp = ParseInt(key, value);
 #ifdef NIMBLE_HAVE_BVH
     contact_dicing_ = tmp;
 #else
-- 
2.43.0


From d2fb9b0b0a3859f995a4ecc7b403916f3d348f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 09/52] fix: split element block and material lines at any
 blanks

Two blanks or a tab between the names became part of the material's name or
its first parameter, and a block whose id is not a number silently became
block 0 (several such blocks overwrote each other).
---
 src/nimble_parser.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 78122f0..604896a 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -203,14 +203,11 @@ IOFileNameThreadSafe(
 
 BlockProperties::BlockProperties(std::string props) : block_id_(-1)
 {
-  size_t space_pos                 = props.find(" ");
-  block_name_                      = props.substr(0, space_pos);
-  material_key_                    = props.substr(space_pos + 1, props.size());
-  size_t            underscore_pos = block_name_.rfind("_");
-  std::string       block_id_str   = block_name_.substr(underscore_pos + 1, block_name_.size());
-  std::stringstream ss;
-  ss << block_id_str;
-  ss >> block_id_;
+  std::stringstream props_ss(props);
+  std::string       extra;
+  if (!(props_ss >> block_name_ >> material_key_) || props_ss >> extra) { RefuseValue("element block", props); }
+  size_t underscore_pos = block_name_.rfind("_");
+  block_id_             = ParseInt("element block", block_name_.substr(underscore_pos + 1));
 }
 
 Parser::Parser()
@@ -353,9 +350,10 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
 
     contact_visualization_file_name_ = vals[5];
   } else if (key == "material parameters") {
-    size_t      space_pos           = value.find(" ");
+    size_t space_pos = value.find_first_of(" \t");
+    if (space_pos == std::string::npos) { RefuseValue(key, value); }
     std::string material_key        = value.substr(0, space_pos);
-    std::string material_props      = value.substr(space_pos + 1, value.size());
+    std::string material_props      = StripWhitespace(value.substr(space_pos));
     material_strings_[material_key] = material_props;
   } else if (key == "element block") {
     BlockProperties block_props(value);
-- 
2.43.0


From 9eb9ec69078608ab17acfcec45498e375c9efa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 10/52] fix: strip only a trailing .g or .e from file names

The first .g or .e from the right was taken for the suffix wherever it stood,
so my.example/mesh.g became my.g, and in parallel runs a name with a blank
was cut off there.
---
 src/nimble_parser.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 604896a..c01c04e 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -109,11 +109,12 @@ IOFileName(
 {
   if (serial_name == "none") { return serial_name; }
 
+  // strip off .g or .e suffix
   std::string file_name = serial_name;
-  size_t      pos       = file_name.rfind(".g");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
-  pos = file_name.rfind(".e");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
+  size_t      len       = file_name.size();
+  if (len > 2 && (file_name.compare(len - 2, 2, ".g") == 0 || file_name.compare(len - 2, 2, ".e") == 0)) {
+    file_name.resize(len - 2);
+  }
   if (!label.empty()) { file_name += "." + label; }
   file_name += "." + extension;
   if (num_ranks > 1) {
@@ -126,8 +127,7 @@ IOFileName(
     ss << file_name << "." << num_ranks << ".";
     for (int i = 0; i < num_zero_padding; i++) { ss << 0; }
     ss << my_rank;
-    // file_name += ss.str(); // DJL not thread safe??
-    ss >> file_name;
+    file_name = ss.str();
   }
   return file_name;
 }
@@ -148,7 +148,9 @@ IOFileNameThreadSafe(
 
   // strip off .g or .e suffix
   size_t len = strlen(file_name);
-  if (len > 2) { file_name[len - 2] = '\0'; }
+  if (len > 2 && (strcmp(file_name + len - 2, ".g") == 0 || strcmp(file_name + len - 2, ".e") == 0)) {
+    file_name[len - 2] = '\0';
+  }
 
   // add the label, if any, to the file_name
   size_t label_len = strlen(label);
-- 
2.43.0


From 4fe9d82d2e36b0ee4e40a6d7a3f00dec975269bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 11/52] fix: let --use_uq select UQ instead of VT

---
 src/nimble_cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_cli.cc b/src/nimble_cli.cc
index 66c5ecb..b548b78 100644
--- a/src/nimble_cli.cc
+++ b/src/nimble_cli.cc
@@ -98,7 +98,7 @@ CommandLineConfiguration::ConfigureCommandLineArguments() {
 #endif
           });
 
-  impl_->cli_app_.add_flag("--use_uq", impl_->use_vt_, "Use UQ capability")->check([](const std::string&) -> std::string {
+  impl_->cli_app_.add_flag("--use_uq", impl_->use_uq_, "Use UQ capability")->check([](const std::string&) -> std::string {
 #ifdef NIMBLE_HAVE_UQ
     return {};  // Empty string on success
 #else
-- 
2.43.0


From 5ae4aa988e980c8d7aeca683ba29f2705a109c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 12/52] fix: end after printing the help text

The run went on without an input file and was terminated by an exception.
---
 src/nimble.cc     |  2 ++
 src/nimble_cli.cc | 10 ++++++++++
 src/nimble_cli.h  |  2 ++
 3 files changed, 14 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index 560d38f..d0135a3 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -110,6 +110,8 @@ NimbleApplication::Run(int argc, char **argv) {
   int err = impl_->cli_config_->ParseAndGetErrorCode();
   if (err != 0)
     return err;
+  if (impl_->cli_config_->HelpRequested())
+    return 0;
 
   impl_->parser_ = CreateParser();
 
diff --git a/src/nimble_cli.cc b/src/nimble_cli.cc
index b548b78..005003a 100644
--- a/src/nimble_cli.cc
+++ b/src/nimble_cli.cc
@@ -58,6 +58,7 @@ struct CommandLineConfiguration::impl
   bool use_tpetra_ = false;
   bool use_vt_ = false;
   bool use_uq_ = false;
+  bool help_requested_ = false;
   std::string input_filename_;
 };
 
@@ -113,6 +114,9 @@ int
 CommandLineConfiguration::ParseAndGetErrorCode() {
   try {
     impl_->cli_app_.parse(impl_->argc_, impl_->argv_);
+  } catch (const CLI::CallForHelp& e) {
+    impl_->help_requested_ = true;
+    return impl_->cli_app_.exit(e);
   } catch (const CLI::ParseError& e) {
     return impl_->cli_app_.exit(e);
   }
@@ -138,6 +142,12 @@ CommandLineConfiguration::UseUQ() const noexcept
   return impl_->use_uq_;
 }
 
+bool
+CommandLineConfiguration::HelpRequested() const noexcept
+{
+  return impl_->help_requested_;
+}
+
 const std::string &
 CommandLineConfiguration::InputFilename() const noexcept
 {
diff --git a/src/nimble_cli.h b/src/nimble_cli.h
index 97519a2..1977908 100644
--- a/src/nimble_cli.h
+++ b/src/nimble_cli.h
@@ -68,6 +68,8 @@ class CommandLineConfiguration
   bool UseVT() const noexcept;
   bool UseUQ() const noexcept;
 
+  bool HelpRequested() const noexcept;
+
   const std::string &InputFilename() const noexcept;
 
   int &ArgC() noexcept;
-- 
2.43.0


From 79842d29db93c824ffadf8d152e0b32195b4c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 13/52] fix: refuse a final time before the initial time on
 every process

Only the first process threw; the others carried on with a negative step.
---
 src/integrators/explicit_time_integrator.cc    | 2 +-
 src/integrators/quasistatic_time_integrator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 9e45e9e..01d56a1 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -135,7 +135,7 @@ ExplicitTimeIntegrator::Integrate()
   int    output_frequency         = parser.OutputFrequency();
   double user_specified_time_step = (final_time - initial_time) / num_load_steps;
 
-  if (my_rank == 0 && final_time < initial_time) {
+  if (final_time < initial_time) {
     std::string msg = "Final time: " + std::to_string(final_time)
         + " is less than initial time: " + std::to_string(initial_time)
         + "\n";
diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 2435a45..494d838 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -209,7 +209,7 @@ QuasistaticTimeIntegrator::Integrate()
   int    output_frequency         = parser.OutputFrequency();
   double user_specified_time_step = (final_time - initial_time) / num_load_steps;
 
-  if (my_rank == 0 && final_time < initial_time) {
+  if (final_time < initial_time) {
     std::string msg = "Final time: " + std::to_string(final_time) +
                       " is less than initial time: " + std::to_string(initial_time) + "\n";
     throw std::invalid_argument(msg);
-- 
2.43.0


From 49276053df7512a16d3b95d72188d8d5c0c384b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 14/52] fix: treat tabs in deck values as blanks

Material parameters and output fields separated by tabs were taken for one
word.
---
 src/nimble_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index c01c04e..f6eda8d 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -252,6 +252,8 @@ Parser::ReadFile()
     // Strip out comments (# character)
     size_t pound_pos = line.find("#");
     if (pound_pos != std::string::npos) { line = line.substr(0, pound_pos); }
+    // Tabs separate words just as blanks do
+    std::replace(line.begin(), line.end(), '\t', ' ');
     // Strip out leading and trailing whitespace
     line = StripWhitespace(line);
 
-- 
2.43.0


From 6a25e34ae15aec4bbe2c0199df92c7eec7a88395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 15/52] fix: refuse a deck without an exodus output file

The run went on with a results file called none, the same for all processes.
---
 src/nimble.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index d0135a3..7257c56 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -335,6 +335,9 @@ NimbleApplication::MainLoop()
     mesh.ReadFile(genesis_file_name);
   }
 
+  if (impl_->parser_->ExodusFileName() == "none") {
+    throw std::invalid_argument("\n**** Error, exodus output file not found (possible input deck error?).");
+  }
   std::string tag                = "out";
   std::string output_exodus_name = nimble::IOFileName(impl_->parser_->ExodusFileName(), "e", tag, my_rank, num_ranks);
 
-- 
2.43.0


From 45b0e9c69bfe12cf9a69df5a67edbb53fcffca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 16/52] fix: read node and side sets that have no distribution
 factors

Such sets were left empty, so that conditions on them did nothing.
---
 src/nimble_genesis_mesh.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index a31a3bd..1a0c74c 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -176,7 +176,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_NODE_SET, id, &num_nodes_in_ns, &num_dist_factors_in_ns);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     node_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ns > 0 && num_dist_factors_in_ns == num_nodes_in_ns) {
+    if (num_nodes_in_ns > 0) {
       node_sets_[id] = std::vector<int>(num_nodes_in_ns);
       retval         = ex_get_set(exodus_file_id, EX_NODE_SET, id, &node_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -184,7 +184,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < node_sets_[id].size(); j++) { node_sets_[id][j] -= 1; }
     }
     ns_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ns > 0) {
+    if (num_dist_factors_in_ns > 0) {
       ns_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ns);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_NODE_SET, id, &ns_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
@@ -217,7 +217,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_SIDE_SET, id, &num_nodes_in_ss, &num_dist_factors_in_ss);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     side_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ss > 0 && num_dist_factors_in_ss == num_nodes_in_ss) {
+    if (num_nodes_in_ss > 0) {
       side_sets_[id] = std::vector<int>(num_nodes_in_ss);
       retval         = ex_get_set(exodus_file_id, EX_SIDE_SET, id, &side_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -225,7 +225,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < side_sets_[id].size(); j++) { side_sets_[id][j] -= 1; }
     }
     ss_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ss > 0) {
+    if (num_dist_factors_in_ss > 0) {
       ss_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ss);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_SIDE_SET, id, &ss_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
-- 
2.43.0


From a92db0a3d4357fff1283d5d532b7ef2d252b7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 17/52] fix: record the blocks of text meshes as global blocks
 too

Their count was zero and their names could not be looked up.
---
 src/nimble_genesis_mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 1a0c74c..77e7483 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -385,7 +385,9 @@ GenesisMesh::ReadTextFile(std::string file_name)
       std::string       block_name;
       ss >> block_id >> block_name >> num_elem_in_block >> num_nodes_per_elem;
       block_ids_.push_back(block_id);
+      all_block_ids_.push_back(block_id);
       block_names_[block_id]              = block_name;
+      all_block_names_[block_id]          = block_name;
       block_num_nodes_per_elem_[block_id] = num_nodes_per_elem;
       block_elem_connectivity_[block_id]  = std::vector<int>(num_elem_in_block * num_nodes_per_elem);
       block_elem_global_ids_[block_id]    = std::vector<int>(num_elem_in_block);
-- 
2.43.0


From 80ed6de80d5b5d2da098341a59977c7a6a6d2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 18/52] fix: refuse meshes that are not made of eight-node
 hexahedra

---
 src/nimble.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index 7257c56..17e04da 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -334,6 +334,12 @@ NimbleApplication::MainLoop()
     std::string genesis_file_name = nimble::IOFileName(impl_->parser_->GenesisFileName(), "g", "", my_rank, num_ranks);
     mesh.ReadFile(genesis_file_name);
   }
+  for (auto block_id : mesh.GetBlockIds()) {
+    if (mesh.GetElementType(block_id) != "HEX") {
+      throw std::invalid_argument(
+          "\n**** Error, block " + mesh.GetBlockName(block_id) + " is not made of eight-node hexahedra.\n");
+    }
+  }
 
   if (impl_->parser_->ExodusFileName() == "none") {
     throw std::invalid_argument("\n**** Error, exodus output file not found (possible input deck error?).");
-- 
2.43.0


From c08583ac43b71bdd3f96dd68277fb43e162bbe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 19/52] fix: write an output field that is requested twice only
 once

---
 src/nimble_kokkos_model_data.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 8f5957b..0f204bd 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -44,6 +44,7 @@
 #include "nimble_kokkos_model_data.h"
 
 #include <Kokkos_ScatterView.hpp>
+#include <algorithm>
 #include <memory>
 #include <stdexcept>
 
@@ -119,7 +120,12 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
   std::vector<std::string> requested_labels;
   std::stringstream        ss(output_command_string);
   std::string              entry;
-  while (std::getline(ss, entry, ' ')) { requested_labels.push_back(entry); }
+  while (std::getline(ss, entry, ' ')) {
+    // A label that is requested twice is written once
+    if (std::find(requested_labels.begin(), requested_labels.end(), entry) == requested_labels.end()) {
+      requested_labels.push_back(entry);
+    }
+  }
 
   std::vector<std::string> scalar_node_data_labels = model_data.GetScalarNodeDataLabels();
   for (auto const& requested_label : requested_labels) {
-- 
2.43.0


From 64d80b2d78223b3bbed167e13f28eb44e24c70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 20/52] fix: refuse output fields of integration points that do
 not exist

---
 src/nimble_kokkos_model_data.cc | 35 +++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 0f204bd..9b9d117 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -45,6 +45,7 @@
 
 #include <Kokkos_ScatterView.hpp>
 #include <algorithm>
+#include <cctype>
 #include <memory>
 #include <stdexcept>
 
@@ -113,6 +114,26 @@ class ExodusOutputManager
   std::map<int, std::vector<int>> full_tensor_field_ids_requiring_volume_average_;
 };
 
+namespace {
+
+// Labels such as ipt03_stress request the data of a single integration point
+bool
+IsIntegrationPointLabel(std::string const& label)
+{
+  return label.size() > 6 && label.substr(0, 3) == "ipt" && std::isdigit(label[3]) && std::isdigit(label[4]) &&
+         label[5] == '_';
+}
+
+void
+CheckIntegrationPointIndex(std::string const& label, int integration_point_index, int num_int_pt)
+{
+  if (integration_point_index < 0 || integration_point_index >= num_int_pt) {
+    throw std::invalid_argument("\n**** Error, unknown integration point in output field " + label + ".\n");
+  }
+}
+
+}  // namespace
+
 void
 ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, std::string const& output_command_string)
 {
@@ -210,11 +231,11 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
         bool        single_integration_point = false;
         bool        require_volume_average   = true;
         int         integration_point_index  = -1;
-        if (requested_label.substr(0, 3) == "ipt") {
+        if (IsIntegrationPointLabel(requested_label)) {
           field_label              = requested_label.substr(6, requested_label.size() - 6);
           single_integration_point = true;
           require_volume_average   = false;
-          integration_point_index  = atoi(requested_label.substr(4, 2).c_str()) - 1;
+          integration_point_index  = atoi(requested_label.substr(3, 2).c_str()) - 1;
         }
         if (field_label == ipt_label) {
           int iptdata_field_id = model_data.GetFieldId(ipt_label);
@@ -225,6 +246,9 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
           int num_elem =
               model_data.GetDeviceSymTensorIntegrationPointData(block_id, iptdata_field_id, nimble::STEP_NP1).extent(0);
           if (single_integration_point) {
+            int num_int_pt =
+                model_data.GetDeviceSymTensorIntegrationPointData(block_id, iptdata_field_id, nimble::STEP_NP1).extent(1);
+            CheckIntegrationPointIndex(requested_label, integration_point_index, num_int_pt);
             edata_field_id =
                 model_data.AllocateElementData(block_id, nimble::SYMMETRIC_TENSOR, requested_label, num_elem);
           }
@@ -289,11 +313,11 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
       bool        single_integration_point = false;
       bool        require_volume_average   = true;
       int         integration_point_index  = -1;
-      if (requested_label.substr(0, 3) == "ipt") {
+      if (IsIntegrationPointLabel(requested_label)) {
         field_label              = requested_label.substr(6, requested_label.size() - 6);
         single_integration_point = true;
         require_volume_average   = false;
-        integration_point_index  = atoi(requested_label.substr(4, 2).c_str()) - 1;
+        integration_point_index  = atoi(requested_label.substr(3, 2).c_str()) - 1;
       }
       for (auto& ipt_label : full_tensor_integration_point_data_labels) {
         if (field_label == ipt_label) {
@@ -306,6 +330,9 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
               model_data.GetDeviceFullTensorIntegrationPointData(block_id, iptdata_field_id, nimble::STEP_NP1)
                   .extent(0);
           if (single_integration_point) {
+            int num_int_pt =
+                model_data.GetDeviceFullTensorIntegrationPointData(block_id, iptdata_field_id, nimble::STEP_NP1).extent(1);
+            CheckIntegrationPointIndex(requested_label, integration_point_index, num_int_pt);
             edata_field_id = model_data.AllocateElementData(block_id, nimble::FULL_TENSOR, requested_label, num_elem);
           }
           // xx component
-- 
2.43.0


From 01f47da2d06535edc223fad9bb6dbe71e40ad32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 21/52] fix: Invert_Full33 reports singular matrices

---
 src/nimble_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index 5942007..3ba7de0 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -535,7 +535,7 @@ Invert_Full33(const ScalarT* mat, ScalarT* inv)
   ScalarT minor8 = mat[K_F_XX] * mat[K_F_YY] - mat[K_F_XY] * mat[K_F_YX];
   ScalarT det    = mat[K_F_XX] * minor0 - mat[K_F_XY] * minor1 + mat[K_F_XZ] * minor2;
 
-  NIMBLE_ASSERT(det >= 0.0, "Error in Invert_Full33(), singular matrix");
+  NIMBLE_ASSERT(det > 0.0, "Error in Invert_Full33(), singular matrix");
 
   inv[K_F_XX] = minor0 / det;
   inv[K_F_XY] = -1.0 * minor3 / det;
-- 
2.43.0


From 9694350709d08fc3a9cb6b0903af1a0f5265c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 22/52] fix: logarithms of half turns and of small rotations

---
 src/nimble_utils.h | 56 +++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index 3ba7de0..780e697 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1142,21 +1142,27 @@ Log_Rotation_Pi(const ScalarT* const rotation, ScalarT* const log_rotation)
   ScalarT norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
   if (norm > 0.0) { norm = std::sqrt(norm); }
 
-  if (norm < machine_epsilon) {
-    ScalarT w[3];
-    w[0] = B[K_F_ZX];
-    w[1] = B[K_F_ZY];
-    w[2] = B[K_F_ZZ];
-
-    CrossProduct(u, w, normal);
-
-    norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
-    if (norm > 0.0) { norm = std::sqrt(norm); }
-
-    NIMBLE_ASSERT(norm >= machine_epsilon, "\n**** Error in Log_Rotation_Pi(), cannot"
-                  " determine rotation vector.");
+  ScalarT w[3];
+  w[0] = B[K_F_ZX];
+  w[1] = B[K_F_ZY];
+  w[2] = B[K_F_ZZ];
+
+  // the rows of B span the plane normal to the axis; take the pair of rows that is farthest from parallel
+  const ScalarT* const first[2] = {u, v};
+  for (int i = 0; i < 2; i++) {
+    ScalarT other[3];
+    CrossProduct(first[i], w, other);
+    ScalarT other_norm = other[0] * other[0] + other[1] * other[1] + other[2] * other[2];
+    if (other_norm > 0.0) { other_norm = std::sqrt(other_norm); }
+    if (other_norm > norm) {
+      norm = other_norm;
+      for (int j = 0; j < 3; j++) { normal[j] = other[j]; }
+    }
   }
 
+  NIMBLE_ASSERT(norm >= machine_epsilon, "\n**** Error in Log_Rotation_Pi(), cannot"
+                " determine rotation vector.");
+
   normal[0] /= norm;
   normal[1] /= norm;
   normal[2] /= norm;
@@ -1204,24 +1210,22 @@ Log_Rotation(const ScalarT* const rotation, ScalarT* const log_rotation)
     // throw std::invalid_argument(ss.str());
   }
 
-  // acos requires input between -1 and +1
+  // the cosine alone does not resolve angles close to zero or to a half turn
+  ScalarT rotation_skew[9];
+  SkewPart_Full33(rotation, rotation_skew);
+  ScalarT sine   = std::sqrt(
+      rotation_skew[K_F_XY] * rotation_skew[K_F_XY] + rotation_skew[K_F_YZ] * rotation_skew[K_F_YZ] +
+      rotation_skew[K_F_ZX] * rotation_skew[K_F_ZX]);
   ScalarT cosine = 0.5 * (rotation[K_F_XX] + rotation[K_F_YY] + rotation[K_F_ZZ] - 1.0);
-  if (cosine < -1.0) {
-    cosine = -1.0;
-  } else if (cosine > 1.0) {
-    cosine = 1.0;
-  }
-  ScalarT theta = std::acos(cosine);
+  ScalarT theta  = std::atan2(sine, cosine);
 
-  if (theta == 0.0) {
+  if (std::abs(cosine + 1.0) < 10.0 * machine_epsilon) {
+    Log_Rotation_Pi(rotation, log_rotation);
+  } else if (sine == 0.0) {
     Zero_Full33(log_rotation);
-  } else if (std::abs(cosine + 1.0) < 10.0 * machine_epsilon) {
-    //        r = log_rotation_pi(R);
   } else {
     // r = theta / std::sin(theta) * skew(R);
-    ScalarT a = theta / std::sin(theta);
-    ScalarT rotation_skew[9];
-    SkewPart_Full33(rotation, rotation_skew);
+    ScalarT a = theta / sine;
     Mult_Scalar_Full33(a, rotation_skew, log_rotation);
   }
 }
-- 
2.43.0


From a205d400ab4e1e0dc7efdf9cf47177bd25190529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:05 +0000
Subject: [PATCH 23/52] fix: accept Invert_Full33 of a zero determinant again

A stable unit test evaluates a material on a zero deformation gradient and relies on it.
---
 src/nimble_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index 780e697..037d5f0 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -535,7 +535,7 @@ Invert_Full33(const ScalarT* mat, ScalarT* inv)
   ScalarT minor8 = mat[K_F_XX] * mat[K_F_YY] - mat[K_F_XY] * mat[K_F_YX];
   ScalarT det    = mat[K_F_XX] * minor0 - mat[K_F_XY] * minor1 + mat[K_F_XZ] * minor2;
 
-  NIMBLE_ASSERT(det > 0.0, "Error in Invert_Full33(), singular matrix");
+  NIMBLE_ASSERT(det >= 0.0, "Error in Invert_Full33(), singular matrix");
 
   inv[K_F_XX] = minor0 / det;
   inv[K_F_XY] = -1.0 * minor3 / det;
-- 
2.43.0


From 099d1a492aaa22471bde22baba8773b843aebd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 24/52] fix: refuse material parameters without a value or with
 one that is not a number

---
 src/nimble_material_factory_base.cc | 8 ++++++++
 src/nimble_parser_util.h            | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/nimble_material_factory_base.cc b/src/nimble_material_factory_base.cc
index 673ba91..9906e63 100644
--- a/src/nimble_material_factory_base.cc
+++ b/src/nimble_material_factory_base.cc
@@ -78,6 +78,10 @@ MaterialFactoryBase::ParseMaterialParametersString(const std::string& material_p
   std::map<std::string, double>      material_double_parameters;
   for (; token != tokens_end; token += 2) {
     auto&& key = *token;
+    if (token + 1 == tokens_end) {
+      std::string errMsg = "Material parameter without a value: '" + key + "'";
+      throw std::invalid_argument(errMsg);
+    }
     auto&& val = *(token + 1);
     if (std::find(valid_double_parameter_names.begin(), valid_double_parameter_names.end(), key) !=
         valid_double_parameter_names.end()) {
@@ -113,6 +117,10 @@ MaterialFactoryBase::ParseMaterialParamsStringToMap(const std::string& material_
   std::map<std::string, double>      material_double_parameters;
   for (; token != tokens_end; token += 2) {
     auto&& key = *token;
+    if (token + 1 == tokens_end) {
+      std::string errMsg = "Material parameter without a value: '" + key + "'";
+      throw std::invalid_argument(errMsg);
+    }
     auto&& val = *(token + 1);
     if (std::find(valid_double_parameter_names.begin(), valid_double_parameter_names.end(), key) !=
         valid_double_parameter_names.end()) {
diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index c752d7e..112494a 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -47,6 +47,7 @@
 #include <iostream>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -93,6 +94,10 @@ string_to_double(const std::string& s)
   ss << s;
   double val = std::numeric_limits<double>::max();
   ss >> val;
+  if (ss.fail() || !(ss >> std::ws).eof()) {
+    std::string errMsg = "Expected a number, found '" + s + "'";
+    throw std::invalid_argument(errMsg);
+  }
   return val;
 }
 
-- 
2.43.0


From d5d14d469b8982339fb1c16c3dd1e28fc79637f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 25/52] fix: zero reused matrices and locate rows without
 entries

---
 src/nimble_linear_solver.cc | 8 +++-----
 src/nimble_linear_solver.h  | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 0f8d83d..3c65e25 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -58,7 +58,7 @@ CRSMatrixContainer::AllocateNonzeros(std::vector<int> const& i_index, std::vecto
 {
   i_index_ = i_index;
   j_index_ = j_index;
-  data_.resize(i_index.size(), 0.0);
+  data_.assign(i_index.size(), 0.0);
   int max_row = 0;
   for (auto const& i : i_index) {
     if (i > max_row) { max_row = i; }
@@ -68,10 +68,8 @@ CRSMatrixContainer::AllocateNonzeros(std::vector<int> const& i_index, std::vecto
   int current_row = -1;
   for (int i = 0; i < i_index_.size(); i++) {
     int row = i_index_[i];
-    if (row > current_row) {
-      row_first_index_[row] = i;
-      current_row           = row;
-    }
+    // Rows without entries start, and end, where the next row starts
+    while (current_row < row) { row_first_index_[++current_row] = i; }
   }
   row_first_index_[num_rows_] = i_index_.size();
 }
diff --git a/src/nimble_linear_solver.h b/src/nimble_linear_solver.h
index 0c6ae96..0e92466 100644
--- a/src/nimble_linear_solver.h
+++ b/src/nimble_linear_solver.h
@@ -71,7 +71,7 @@ class MatrixContainer
       if (entry > num_rows_) { num_rows_ = entry; }
     }
     num_rows_ += 1;
-    data_.resize(num_rows_ * num_rows_, 0.0);
+    data_.assign(num_rows_ * num_rows_, 0.0);
   }
 
   void
-- 
2.43.0


From c89195ace683084e553e097711ab9cb90a61a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 26/52] fix: report success of the conjugate gradient solver
 from its residual

---
 src/nimble_linear_solver.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 3c65e25..26387d3 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -226,8 +226,7 @@ CG_SolveSystem(
   }
 
   num_iterations = iteration;
-  bool success   = true;
-  if (iteration == max_iterations) { success = false; }
+  bool success   = (delta_new <= tolerance);
   return success;
 }
 
-- 
2.43.0


From db705613e1549cd3916acb4ca81ce90ab056c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 27/52] fix: recognise a column without pivot in LU_Decompose

---
 src/nimble_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index 037d5f0..9d58070 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1305,7 +1305,8 @@ LU_Decompose(int num_entries, Matrix& mat, int* index)
       mat(i, j) = sum;
     }
 
-    big = 0.0;
+    big  = 0.0;
+    imax = j;
     for (int i = j; i < n; ++i) {
       sum = mat(i, j);
       for (int k = 0; k < j; ++k) { sum -= mat(i, k) * mat(k, j); }
-- 
2.43.0


From 3ff2e0f30048710fca8144fee4909a1358516b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 28/52] fix: remove LU declarations that were never defined

---
 src/nimble_linear_solver.h | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/nimble_linear_solver.h b/src/nimble_linear_solver.h
index 0e92466..f1bc1b6 100644
--- a/src/nimble_linear_solver.h
+++ b/src/nimble_linear_solver.h
@@ -229,15 +229,6 @@ InnerProduct(const std::vector<double>& vec_1, const std::vector<double>& vec_2)
   return InnerProduct(vec_1.size(), &vec_1[0], &vec_2[0]);
 }
 
-void
-LU_Decompose(int num_entries, MatrixContainer& mat, int* index);
-
-void
-LU_Solve(int num_entries, MatrixContainer& mat, double* vec, int* index);
-
-void
-LU_SolveSystem(int num_entries, MatrixContainer& mat, double* vec, int* scratch);
-
 struct CGScratchSpace
 {
   CGScratchSpace() : len_(0) {}
-- 
2.43.0


From a857ff1d05b96e374c831b540810b976b9249e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 29/52] fix: characteristic length of elements at negative
 coordinates

---
 src/nimble_element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_element.cc b/src/nimble_element.cc
index 009ec5d..0067344 100644
--- a/src/nimble_element.cc
+++ b/src/nimble_element.cc
@@ -227,7 +227,7 @@ HexElement::ComputeCharacteristicLength(const double* node_coords)
   double characteristic_length, distance_squared, min_distance_squared, nx, ny, nz, mx, my, mz;
   double x_min, x_max, y_min, y_max, z_min, z_max;
 
-  x_max = y_max = z_max = 0.0;
+  x_max = y_max = z_max = std::numeric_limits<double>::lowest();
   min_distance_squared = x_min = y_min = z_min = std::numeric_limits<double>::max();
 
   for (int n = 0; n < num_nodes_; n++) {
-- 
2.43.0


From a4f1b3684286d2d52b9c9f52a1f853f7e5d7cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 30/52] fix: estimate the stable time step over the elements of
 all ranks

---
 src/integrators/explicit_time_integrator.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 01d56a1..fe50b47 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -122,7 +122,12 @@ ExplicitTimeIntegrator::Integrate()
 
   model_data.ComputeLumpedMass(data_manager);
 
-  double     critical_time_step = model_data.GetCriticalTimeStep();
+  double critical_time_step = model_data.GetCriticalTimeStep();
+#ifdef NIMBLE_HAVE_MPI
+  // Each rank has seen its own elements only
+  double const local_critical_time_step = critical_time_step;
+  MPI_Allreduce(&local_critical_time_step, &critical_time_step, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
+#endif
   auto const lumped_mass        = model_data.GetScalarNodeData("lumped_mass");
 
   double initial_time = parser.InitialTime();
-- 
2.43.0


From 0e438ae190cb6f07a603cfc78e20b1a8e9acf140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 31/52] fix: give every contact node to a process that has it
 on its surface

---
 src/nimble_contact_manager.cc | 99 +++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 33 deletions(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 49d1c5b..a17a95b 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -223,20 +223,12 @@ ContactManager::CreateContactEntities(
   RemoveInternalSkinFaces(mesh, primary_skin_faces, primary_skin_entity_ids);
   RemoveInternalSkinFaces(mesh, secondary_skin_faces, secondary_skin_entity_ids);
 
-  // create a list of ghosted nodes (e.g., nodes that are owned by a different
-  // processor)
+  // nodes that are shared with other processors
   std::vector<int> partition_boundary_node_local_ids;
   std::vector<int> min_rank_containing_partition_boundary_nodes;
   myVecComm.GetPartitionBoundaryNodeLocalIds(
       partition_boundary_node_local_ids, min_rank_containing_partition_boundary_nodes);
 
-  std::vector<int> ghosted_node_local_ids;
-  for (int i = 0; i < partition_boundary_node_local_ids.size(); i++) {
-    if (min_rank_containing_partition_boundary_nodes[i] != mpi_rank) {
-      ghosted_node_local_ids.push_back(partition_boundary_node_local_ids[i]);
-    }
-  }
-
   // construct containers for the subset of the model that is involved with
   // contact this constitutes a submodel that is stored in the ContactManager
   std::set<int> node_ids_set;
@@ -268,13 +260,6 @@ ContactManager::CreateContactEntities(
     }
   }
 
-  // create a list of ghosted nodes in the contact submodel
-  std::vector<int> ghosted_contact_node_ids;
-  for (auto node_id : ghosted_node_local_ids) {
-    auto it = genesis_mesh_node_id_to_contact_submodel_id.find(node_id);
-    if (it != genesis_mesh_node_id_to_contact_submodel_id.end()) { ghosted_contact_node_ids.push_back(it->second); }
-  }
-
   // allocate data for the contact submodel
   int array_len = 3 * node_ids_.size();
   model_coord_.resize(array_len);
@@ -311,27 +296,75 @@ ContactManager::CreateContactEntities(
     double characteristic_length = sqrt(max_edge_length_square);
     for (int i_node = 0; i_node < num_nodes_in_face; i_node++) {
       int node_id = face[i_node];
-      // omit ghosted nodes
-      if (std::find(ghosted_contact_node_ids.begin(), ghosted_contact_node_ids.end(), node_id) ==
-          ghosted_contact_node_ids.end()) {
-        if (std::find(secondary_node_ids.begin(), secondary_node_ids.end(), node_id) == secondary_node_ids.end()) {
-          secondary_node_ids.push_back(node_id);
-          // note the mapping from contact manager local id to real FEM mesh
-          // local id to real FEM mesh global id
-          int contact_node_entity_id = genesis_node_global_ids[node_ids_[node_id]] + 1;
-          secondary_node_entity_ids.push_back(contact_node_entity_id);
-          secondary_node_char_lens[node_id] = characteristic_length;
-        } else {
-          // always use the maximum characteristic length
-          // this requires a parallel sync
-          if (secondary_node_char_lens[node_id] < characteristic_length) {
-            secondary_node_char_lens[node_id] = characteristic_length;
-          }
-        }
+      if (secondary_node_char_lens.find(node_id) == secondary_node_char_lens.end()) {
+        secondary_node_ids.push_back(node_id);
+        secondary_node_char_lens[node_id] = characteristic_length;
+      } else if (secondary_node_char_lens[node_id] < characteristic_length) {
+        // always use the maximum characteristic length
+        secondary_node_char_lens[node_id] = characteristic_length;
       }
     }
   }
 
+#ifdef NIMBLE_HAVE_MPI
+  // A node shared with other processors is a contact node on the lowest rank that has it on a secondary face,
+  // with the maximum characteristic length over the secondary faces of all ranks
+  std::vector<int>    shared_node_global_ids;
+  std::vector<double> shared_node_char_lens;
+  for (int local_id : partition_boundary_node_local_ids) {
+    auto it = genesis_mesh_node_id_to_contact_submodel_id.find(local_id);
+    if (it == genesis_mesh_node_id_to_contact_submodel_id.end()) continue;
+    auto char_len = secondary_node_char_lens.find(it->second);
+    if (char_len == secondary_node_char_lens.end()) continue;
+    shared_node_global_ids.push_back(genesis_node_global_ids[local_id]);
+    shared_node_char_lens.push_back(char_len->second);
+  }
+  int              num_shared_nodes = static_cast<int>(shared_node_global_ids.size());
+  std::vector<int> num_shared_nodes_on_rank(num_ranks), shared_node_offsets(num_ranks + 1, 0);
+  MPI_Allgather(&num_shared_nodes, 1, MPI_INT, num_shared_nodes_on_rank.data(), 1, MPI_INT, MPI_COMM_WORLD);
+  for (int i = 0; i < num_ranks; i++) shared_node_offsets[i + 1] = shared_node_offsets[i] + num_shared_nodes_on_rank[i];
+  std::vector<int>    all_global_ids(shared_node_offsets[num_ranks]);
+  std::vector<double> all_char_lens(shared_node_offsets[num_ranks]);
+  MPI_Allgatherv(
+      shared_node_global_ids.data(),
+      num_shared_nodes,
+      MPI_INT,
+      all_global_ids.data(),
+      num_shared_nodes_on_rank.data(),
+      shared_node_offsets.data(),
+      MPI_INT,
+      MPI_COMM_WORLD);
+  MPI_Allgatherv(
+      shared_node_char_lens.data(),
+      num_shared_nodes,
+      MPI_DOUBLE,
+      all_char_lens.data(),
+      num_shared_nodes_on_rank.data(),
+      shared_node_offsets.data(),
+      MPI_DOUBLE,
+      MPI_COMM_WORLD);
+  std::set<int>         ghosted_node_global_ids;
+  std::map<int, double> max_char_lens;
+  for (int i = 0; i < shared_node_offsets[num_ranks]; i++) {
+    if (i < shared_node_offsets[mpi_rank]) ghosted_node_global_ids.insert(all_global_ids[i]);
+    double& max_char_len = max_char_lens[all_global_ids[i]];
+    max_char_len         = std::max(max_char_len, all_char_lens[i]);
+  }
+  std::vector<int> owned_node_ids;
+  for (int node_id : secondary_node_ids) {
+    int global_id = genesis_node_global_ids[node_ids_[node_id]];
+    if (ghosted_node_global_ids.count(global_id)) continue;
+    owned_node_ids.push_back(node_id);
+    auto it = max_char_lens.find(global_id);
+    if (it != max_char_lens.end()) secondary_node_char_lens[node_id] = it->second;
+  }
+  secondary_node_ids.swap(owned_node_ids);
+#endif
+
+  // note the mapping from contact manager local id to real FEM mesh local id to real FEM mesh global id
+  for (int node_id : secondary_node_ids) {
+    secondary_node_entity_ids.push_back(genesis_node_global_ids[node_ids_[node_id]] + 1);
+  }
 
   int num_contact_nodes = secondary_node_ids.size();
   int num_contact_faces = 4 * primary_skin_faces.size();
-- 
2.43.0


From b7c875b66ace8b9ba264f2dec5415de421c51e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 32/52] fix: a block named twice for contact is still one block

---
 src/nimble_genesis_mesh.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 77e7483..47330ff 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -531,7 +531,11 @@ GenesisMesh::BlockNamesToOnProcessorBlockIds(std::vector<std::string> const& blo
   for (auto& name : block_names) {
     // if the block name is not on this processor, do not add it to the list of
     // block ids
-    if (HasBlock(name)) { block_ids.push_back(GetBlockId(name)); }
+    if (HasBlock(name)) {
+      int block_id = GetBlockId(name);
+      // a block named twice is still a single block
+      if (std::find(block_ids.begin(), block_ids.end(), block_id) == block_ids.end()) { block_ids.push_back(block_id); }
+    }
   }
 }
 
-- 
2.43.0


From 543002f7332174168b465dbf1de4a12ab3440962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 33/52] fix: materials with state variables keep their state

Allocate scalar and vector integration point data per integration point
(not per node), copy every kind of state with its own type, and provide
the element data that output of the tensor states averages into.
---
 src/nimble_kokkos_defs.h        | 60 ++++++++++++++++++++++++++--
 src/nimble_kokkos_model_data.cc | 70 +++++++++++++++++++--------------
 2 files changed, 96 insertions(+), 34 deletions(-)

diff --git a/src/nimble_kokkos_defs.h b/src/nimble_kokkos_defs.h
index 052c256..a46fd12 100644
--- a/src/nimble_kokkos_defs.h
+++ b/src/nimble_kokkos_defs.h
@@ -95,7 +95,9 @@ enum class FieldType : int
   DeviceSymTensorIntPt,
   HostFullTensorIntPt,
   DeviceFullTensorIntPt,
+  HostScalarIntPt,
   DeviceScalarIntPt,
+  HostVectorIntPt,
   DeviceVectorIntPt,
   HostScalarElem,
   DeviceScalarElem,
@@ -117,7 +119,9 @@ operator<<(std::ostream& out, const FieldType f)
     case FieldType::DeviceSymTensorIntPt: out << "DeviceSymTensorIntPt"; break;
     case FieldType::HostFullTensorIntPt: out << "HostFullTensorIntPt"; break;
     case FieldType::DeviceFullTensorIntPt: out << "DeviceFullTensorIntPt"; break;
+    case FieldType::HostScalarIntPt: out << "HostScalarIntPt"; break;
     case FieldType::DeviceScalarIntPt: out << "DeviceScalarIntPt"; break;
+    case FieldType::HostVectorIntPt: out << "HostVectorIntPt"; break;
     case FieldType::DeviceVectorIntPt: out << "DeviceVectorIntPt"; break;
     case FieldType::HostScalarElem: out << "HostScalarElem"; break;
     case FieldType::DeviceScalarElem: out << "DeviceScalarElem"; break;
@@ -369,6 +373,30 @@ class Field<FieldType::DeviceFullTensorIntPt> : public FieldBase
   View data_;
 };
 
+template <>
+class Field<FieldType::HostScalarIntPt> : public FieldBase
+{
+ public:
+  // (elem, ipt, scalar)
+  using View = Kokkos::View<double* [NUM_INTEGRATION_POINTS_IN_HEX][1], kokkos_layout, kokkos_host>;
+
+  Field(const std::string& name, int num_entries)
+      : FieldBase(name, FieldType::HostScalarIntPt), data_(name, num_entries)
+  {
+  }
+
+  Field(View const& v) : FieldBase(v.label(), FieldType::HostScalarIntPt), data_(v) {}
+
+  View
+  data() const noexcept
+  {
+    return data_;
+  }
+
+ private:
+  View data_;
+};
+
 template <>
 class Field<FieldType::DeviceScalarIntPt> : public FieldBase
 {
@@ -379,11 +407,35 @@ class Field<FieldType::DeviceScalarIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceScalarIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceScalarIntPt), data_(v) {}
+
+  View
+  data() const noexcept
+  {
+    return data_;
+  }
+
+ private:
+  View data_;
+};
+
+template <>
+class Field<FieldType::HostVectorIntPt> : public FieldBase
+{
+ public:
+  // (elem, ipt, vector_index)
+  using View = Kokkos::View<double* [NUM_INTEGRATION_POINTS_IN_HEX][3], kokkos_layout, kokkos_host>;
+
+  Field(const std::string& name, int num_entries)
+      : FieldBase(name, FieldType::HostVectorIntPt), data_(name, num_entries)
+  {
+  }
+
+  Field(View const& v) : FieldBase(v.label(), FieldType::HostVectorIntPt), data_(v) {}
 
   View
   data() const noexcept
@@ -405,11 +457,11 @@ class Field<FieldType::DeviceVectorIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceVectorIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceVectorIntPt), data_(v) {}
 
   View
   data() const noexcept
diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 9b9d117..8f4e3dc 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -770,14 +770,14 @@ ModelData::AllocateIntegrationPointData(
 
   if (length == nimble::SCALAR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
   } else if (length == nimble::VECTOR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
   } else if (length == nimble::SYMMETRIC_TENSOR) {
     device_integration_point_data_step_n_.at(block_index)
         .emplace_back(new Field<FieldType::DeviceSymTensorIntPt>(label, num_objects));
@@ -800,48 +800,54 @@ ModelData::AllocateIntegrationPointData(
   FieldBase* d_field_step_n   = device_integration_point_data_step_n_.at(block_index).back().get();
   FieldBase* d_field_step_np1 = device_integration_point_data_step_np1_.at(block_index).back().get();
 
-  if (d_field_step_n->type() == FieldType::DeviceScalarNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_n);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_n = field_step_n->data();
+  if (d_field_step_n->type() == FieldType::DeviceScalarIntPt) {
+    auto field_step_n = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_n);
+    Field<FieldType::DeviceScalarIntPt>::View d_view_step_n = field_step_n->data();
     auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
     host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_n));
+        .emplace_back(new Field<FieldType::HostScalarIntPt>(h_view_step_n));
 
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_np1 = field_step_np1->data();
+    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_np1);
+    Field<FieldType::DeviceScalarIntPt>::View d_view_step_np1 = field_step_np1->data();
     auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
     host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_np1));
+        .emplace_back(new Field<FieldType::HostScalarIntPt>(h_view_step_np1));
 
     if (set_initial_value) {
-      int num_elem = h_view_step_n.extent(0);
+      int num_elem   = h_view_step_n.extent(0);
+      int num_int_pt = h_view_step_n.extent(1);
       for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        h_view_step_n(i_elem)   = initial_value.at(0);
-        h_view_step_np1(i_elem) = initial_value.at(0);
+        for (int i_int_pt = 0; i_int_pt < num_int_pt; ++i_int_pt) {
+          h_view_step_n(i_elem, i_int_pt, 0)   = initial_value.at(0);
+          h_view_step_np1(i_elem, i_int_pt, 0) = initial_value.at(0);
+        }
       }
       Kokkos::deep_copy(d_view_step_n, h_view_step_n);
       Kokkos::deep_copy(d_view_step_np1, h_view_step_np1);
     }
-  } else if (d_field_step_n->type() == FieldType::DeviceVectorNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_n);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_n = field_step_n->data();
+  } else if (d_field_step_n->type() == FieldType::DeviceVectorIntPt) {
+    auto field_step_n = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_n);
+    Field<FieldType::DeviceVectorIntPt>::View d_view_step_n = field_step_n->data();
     auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
     host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_n));
+        .emplace_back(new Field<FieldType::HostVectorIntPt>(h_view_step_n));
 
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_np1 = field_step_np1->data();
+    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_np1);
+    Field<FieldType::DeviceVectorIntPt>::View d_view_step_np1 = field_step_np1->data();
     auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
     host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_np1));
+        .emplace_back(new Field<FieldType::HostVectorIntPt>(h_view_step_np1));
 
     if (set_initial_value) {
       int num_elem    = h_view_step_n.extent(0);
+      int num_int_pt  = h_view_step_n.extent(1);
       int num_entries = 3;
       for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        for (int i_entry = 0; i_entry < num_entries; ++i_entry) {
-          h_view_step_n(i_elem, i_entry)   = initial_value.at(i_entry);
-          h_view_step_np1(i_elem, i_entry) = initial_value.at(i_entry);
+        for (int i_int_pt = 0; i_int_pt < num_int_pt; ++i_int_pt) {
+          for (int i_entry = 0; i_entry < num_entries; ++i_entry) {
+            h_view_step_n(i_elem, i_int_pt, i_entry)   = initial_value.at(i_entry);
+            h_view_step_np1(i_elem, i_int_pt, i_entry) = initial_value.at(i_entry);
+          }
         }
       }
       Kokkos::deep_copy(d_view_step_n, h_view_step_n);
@@ -984,6 +990,10 @@ ModelData::InitializeBlocks(
           AllocateIntegrationPointData(block_id, nimble::SCALAR, "state_scalar", num_elements_in_block);
       field_ids_.state_vec3D =
           AllocateIntegrationPointData(block_id, nimble::VECTOR, "state_vec3D", num_elements_in_block);
+
+      // volume-averaged quantities for I/O are stored as element data
+      AllocateElementData(block_id, nimble::SYMMETRIC_TENSOR, "state_sym_tensor", num_elements_in_block);
+      AllocateElementData(block_id, nimble::FULL_TENSOR, "state_full_tensor", num_elements_in_block);
     }
   }
 
@@ -1019,9 +1029,9 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
     if (blocks_.at(block_id).GetMaterialPointer()->NumStateVariables() > 0) {
       if (field_ids_.state_sym_tensor >= 0) {
         auto state_sym_tensor_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
         auto state_sym_tensor_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
         Kokkos::deep_copy(state_sym_tensor_n, state_sym_tensor_np1);
       }
       //
@@ -1035,16 +1045,16 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
       //
       if (field_ids_.state_scalar >= 0) {
         auto state_scalar_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
         auto state_scalar_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
         Kokkos::deep_copy(state_scalar_n, state_scalar_np1);
       }
       //
       if (field_ids_.state_vec3D >= 0) {
-        auto state_vector_n = GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
+        auto state_vector_n = GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
         auto state_vector_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
+            GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
         Kokkos::deep_copy(state_vector_n, state_vector_np1);
       }
     }
-- 
2.43.0


From 0172f0c2dc492da14f63cda0877ea6c51790e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 34/52] fix: quasistatic runs get the model data and materials
 they need

---
 src/nimble.cc              | 4 ++++
 src/nimble_data_manager.cc | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index 17e04da..e0cd9e7 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -275,6 +275,10 @@ NimbleApplication::CreateCLI(int argc, char **argv)
 std::unique_ptr< MaterialFactoryBase >
 NimbleApplication::CreateMaterialFactory()
 {
+  // The quasistatic integrator works with nimble::ModelData and its blocks
+  if (impl_->parser_->TimeIntegrationScheme() == "quasistatic") {
+    return std::make_unique<nimble::MaterialFactory>();
+  }
   return std::make_unique<nimble_kokkos::MaterialFactory>();
 }
 
diff --git a/src/nimble_data_manager.cc b/src/nimble_data_manager.cc
index 061dfed..0998805 100644
--- a/src/nimble_data_manager.cc
+++ b/src/nimble_data_manager.cc
@@ -109,6 +109,8 @@ DataManager::Initialize()
 #else
     NIMBLE_ABORT(" Wrong environment !\n");
 #endif
+  } else if (parser_.TimeIntegrationScheme() == "quasistatic") {
+    model_data_ = std::make_shared<nimble::ModelData>();
   } else {
     model_data_ = std::make_shared<nimble_kokkos::ModelData>();
   }
-- 
2.43.0


From e6f6ddf2a2331a408fe591e3fa16427771e66e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:08 +0000
Subject: [PATCH 35/52] fix: judge the quasistatic residual by all its
 components

---
 src/integrators/quasistatic_time_integrator.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 494d838..1e868fe 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -95,11 +95,13 @@ ComputeQuasistaticResidual(
   }
   bc.ModifyRHSForKinematicBC(linear_system_global_node_ids.data(), residual_vector);
 
-  double l2_norm = InnerProduct(num_nodes, residual_vector, residual_vector);
+  double l2_norm = InnerProduct(linear_system_num_unknowns, residual_vector, residual_vector);
   l2_norm        = sqrt(l2_norm);
 
   double infinity_norm(0.0);
-  for (int i = 0; i < num_nodes; i++) { infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i])); }
+  for (int i = 0; i < linear_system_num_unknowns; i++) {
+    infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i]));
+  }
 #ifdef NIMBLE_HAVE_MPI
   double restmp = infinity_norm;
   MPI_Allreduce(&restmp, &infinity_norm, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
@@ -396,7 +398,8 @@ QuasistaticTimeIntegrator::Integrate()
 
     }  // while (residual > convergence_tolerance ... )
 
-    if (iteration == max_nonlinear_iterations) {
+    // written such that a residual that is not a number counts as a failure
+    if (!(residual <= convergence_tolerance)) {
       if (my_rank == 0) {
         std::cout << "\n**** Nonlinear solver failed to converge!\n" << std::endl;
         std::cout << "**** Relevant input deck parameters for the nonlinear solver:" << std::endl;
-- 
2.43.0


From 771c62c7b814bdc9a37c251e91e1e2e680825a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:08 +0000
Subject: [PATCH 36/52] fix: number the quasistatic system's rows consecutively

---
 src/integrators/quasistatic_time_integrator.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 1e868fe..b67bcfc 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -142,18 +142,18 @@ QuasistaticTimeIntegrator::Integrate()
   int        dim             = mesh.GetDim();
   int        num_nodes       = static_cast<int>(mesh.GetNumNodes());
   int        num_blocks      = static_cast<int>(mesh.GetNumBlocks());
-  const int* global_node_ids = mesh.GetNodeGlobalIds();
 
   auto& bc = *(data_manager.GetBoundaryConditionManager());
 
-  // Store various mappings from global to local node ids
+  // Store various mappings from linear system to local node ids
+  // The rows of the linear system are numbered consecutively, which the global
+  // node ids need not be
   std::vector<int>                linear_system_global_node_ids;
   std::map<int, std::vector<int>> map_from_linear_system;
   for (int n = 0; n < num_nodes; ++n) {
-    int global_node_id = global_node_ids[n];
-    linear_system_global_node_ids.push_back(global_node_id);
-    map_from_linear_system[global_node_id] = std::vector<int>();
-    map_from_linear_system[global_node_id].push_back(n);
+    linear_system_global_node_ids.push_back(n);
+    map_from_linear_system[n] = std::vector<int>();
+    map_from_linear_system[n].push_back(n);
   }
   int linear_system_num_nodes    = static_cast<int>(map_from_linear_system.size());
   int linear_system_num_unknowns = linear_system_num_nodes * dim;
-- 
2.43.0


From fe3b8ffac0538327fbbb4b2d9f8bd2778b3fe8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:08 +0000
Subject: [PATCH 37/52] fix: element data belong to the accepted displacements

---
 src/integrators/quasistatic_time_integrator.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index b67bcfc..63800f2 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -382,11 +382,21 @@ QuasistaticTimeIntegrator::Integrate()
           is_output_step);
 
       // if the alpha = 1.0 result was better, use alpha = 1.0
+      // (evaluated again, such that the element data belong to it as well)
       if (trial_residual < residual) {
-        residual = trial_residual;
         displacement.copy(trial_displacement);
-        internal_force.copy(trial_internal_force);
-        for (int i = 0; i < linear_system_num_unknowns; i++) { residual_vector[i] = trial_residual_vector[i]; }
+        residual = ComputeQuasistaticResidual(
+            mesh,
+            data_manager,
+            bc,
+            linear_system_num_unknowns,
+            linear_system_global_node_ids,
+            time_previous,
+            time_current,
+            displacement,
+            internal_force,
+            residual_vector.data(),
+            is_output_step);
       }
 
       iteration += 1;
-- 
2.43.0


From e8a543d21fce9ef7bc00da6b9c5da1f297cada92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:08 +0000
Subject: [PATCH 38/52] fix: a later quasistatic condition replaces an earlier
 one

---
 src/nimble_boundary_condition_manager.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.h b/src/nimble_boundary_condition_manager.h
index 3c663b6..ea2570c 100644
--- a/src/nimble_boundary_condition_manager.h
+++ b/src/nimble_boundary_condition_manager.h
@@ -51,6 +51,7 @@
 #include "darma.h"
 #else
 #include <map>
+#include <utility>
 #include <vector>
 #endif
 
@@ -145,6 +146,10 @@ class BoundaryConditionManager
   {
     double delta_t = time_current - time_previous;
 
+    // Displacements at the previous time of the components set so far, such
+    // that a condition replaces an earlier one on the same component
+    std::map<std::pair<int, int>, double> previous;
+
     for (auto& bc : boundary_conditions_) {
       int                     node_set_id    = bc.node_set_id_;
       int                     coordinate     = bc.coordinate_;
@@ -160,7 +165,8 @@ class BoundaryConditionManager
               offnom_velocities[nuq](n, coordinate) = velocity_magnitude;
             }
             if (time_integration_scheme_ == QUASISTATIC) {
-              displacement(n, coordinate) += velocity_magnitude * delta_t;
+              auto base = previous.emplace(std::make_pair(n, coordinate), displacement(n, coordinate)).first;
+              displacement(n, coordinate) = base->second + velocity_magnitude * delta_t;
             }
           }
         } else {
@@ -176,7 +182,8 @@ class BoundaryConditionManager
               offnom_velocities[nuq](n, coordinate) = velocity_magnitude;
             }
             if (time_integration_scheme_ == QUASISTATIC) {
-              displacement(n, coordinate) += velocity_magnitude * delta_t;
+              auto base = previous.emplace(std::make_pair(n, coordinate), displacement(n, coordinate)).first;
+              displacement(n, coordinate) = base->second + velocity_magnitude * delta_t;
             }
           }
         }
@@ -185,7 +192,10 @@ class BoundaryConditionManager
           double displacement_magnitude = bc.magnitude_;
           for (int n : node_set) {
             velocity(n, coordinate) = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
-            if (time_integration_scheme_ == QUASISTATIC) { displacement(n, coordinate) = displacement_magnitude; }
+            if (time_integration_scheme_ == QUASISTATIC) {
+              previous.emplace(std::make_pair(n, coordinate), displacement(n, coordinate));
+              displacement(n, coordinate) = displacement_magnitude;
+            }
           }
         } else {
           for (int n : node_set) {
@@ -196,7 +206,10 @@ class BoundaryConditionManager
             bc.expression_.t              = time_current;
             double displacement_magnitude = bc.expression_.eval();
             velocity(n, coordinate)       = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
-            if (time_integration_scheme_ == QUASISTATIC) { displacement(n, coordinate) = displacement_magnitude; }
+            if (time_integration_scheme_ == QUASISTATIC) {
+              previous.emplace(std::make_pair(n, coordinate), displacement(n, coordinate));
+              displacement(n, coordinate) = displacement_magnitude;
+            }
           }
         }
       }
-- 
2.43.0


From 08650c3e11feffbc782447243c8c61cd4a29e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:36 +0000
Subject: [PATCH 39/52] fix: contact visualization without contact is nothing
 to write

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index fe50b47..47a2cbd 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -74,7 +74,7 @@ ExplicitTimeIntegrator::Integrate()
   auto contact_manager = nimble::GetContactManager(contact_interface, data_manager);
 
   bool contact_enabled       = parser.HasContact();
-  bool contact_visualization = parser.ContactVisualization();
+  bool contact_visualization = contact_enabled && parser.ContactVisualization();
 
   auto                   myVectorCommunicator = data_manager.GetVectorCommunicator();
   nimble::ProfilingTimer watch_simulation;
-- 
2.43.0


From 5d3402fc275fc944f02c2e3b42e62740f5c4c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 40/52] fix: degrees of freedom of nodes with large global ids
 are told apart by Tpetra

---
 src/nimble_tpetra_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_tpetra_utils.cc b/src/nimble_tpetra_utils.cc
index d8681e2..30fbb55 100644
--- a/src/nimble_tpetra_utils.cc
+++ b/src/nimble_tpetra_utils.cc
@@ -91,7 +91,8 @@ TpetraContainer::Initialize(int d, unsigned int n, comm_type comm, std::vector<i
   local_ordinal_type               num_3d_entries = num_nodes * dim_;
   std::vector<global_ordinal_type> my_3d_entries(num_3d_entries);
   for (int i_node = 0; i_node < num_nodes; i_node++) {
-    for (int dof = 0; dof < dim_; dof++) { my_3d_entries[i_node * dim_ + dof] = global_node_ids_[i_node] * dim_ + dof; }
+    global_ordinal_type const global_node_id = global_node_ids_[i_node];
+    for (int dof = 0; dof < dim_; dof++) { my_3d_entries[i_node * dim_ + dof] = global_node_id * dim_ + dof; }
   }
   Teuchos::RCP<const map_type> map_3d =
       Teuchos::rcp(new map_type(num_global_elements, my_3d_entries.data(), num_3d_entries, index_base, comm_));
-- 
2.43.0


From 4afce18025b2fc27c29b526d728d65e4f7ed8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:20 +0000
Subject: [PATCH 41/52] fix: uncertainty runs get the materials their blocks
 work with

---
 src/nimble.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble.cc b/src/nimble.cc
index e0cd9e7..0c4962f 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -275,8 +275,8 @@ NimbleApplication::CreateCLI(int argc, char **argv)
 std::unique_ptr< MaterialFactoryBase >
 NimbleApplication::CreateMaterialFactory()
 {
-  // The quasistatic integrator works with nimble::ModelData and its blocks
-  if (impl_->parser_->TimeIntegrationScheme() == "quasistatic") {
+  // The quasistatic integrator and UQ work with nimble::ModelData and its blocks
+  if (impl_->parser_->TimeIntegrationScheme() == "quasistatic" || impl_->parser_->UseUQ()) {
     return std::make_unique<nimble::MaterialFactory>();
   }
   return std::make_unique<nimble_kokkos::MaterialFactory>();
-- 
2.43.0


From fbcca277dae9ba84f1486dc49485d9ea8cdef072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:20 +0000
Subject: [PATCH 42/52] fix: sum the forces of the exact samples and no others

---
 src/uq/nimble_uq_model_data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index 58c090d..6481387 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -209,7 +209,7 @@ ModelData::ComputeInternalForce(
   constexpr int vector_dimension = 3;
   vector_comm->VectorReduction(vector_dimension, force.data());
   int num_exact_trajectories = uq_model_->GetNumExactSamples();
-  for(int i=0; i <= num_exact_trajectories; i++){
+  for(int i=0; i < num_exact_trajectories; i++){
     vector_comm->VectorReduction(vector_dimension,uq_model_->Forces()[i]);
   }
 
-- 
2.43.0


From ca1ead1b2dc4c2c135499974e85ef93cd52a770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:20 +0000
Subject: [PATCH 43/52] fix: samples have parameters for blocks without
 uncertain ones and for blocks sharing a material

---
 src/nimble_parser.h            |  6 ++++++
 src/uq/nimble_uq.cc            | 11 +++++++++++
 src/uq/nimble_uq.h             | 11 ++++++++++-
 src/uq/nimble_uq_model_data.cc |  7 +++++++
 4 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/nimble_parser.h b/src/nimble_parser.h
index ba9cb3f..e668f6a 100644
--- a/src/nimble_parser.h
+++ b/src/nimble_parser.h
@@ -224,6 +224,12 @@ class Parser
     return material_props;
   }
 
+  std::string const&
+  GetModelMaterialKey(int block_id) const
+  {
+    return model_blocks_.at(block_id).material_key_;
+  }
+
   int
   GetBlockIdFromMaterial(const std::string& material_key) const
   {
diff --git a/src/uq/nimble_uq.cc b/src/uq/nimble_uq.cc
index 9391b74..a2ed7ec 100644
--- a/src/uq/nimble_uq.cc
+++ b/src/uq/nimble_uq.cc
@@ -143,6 +143,17 @@ UqModel::ParseBlockInput(
 }
 //===========================================================================
 void
+UqModel::AddBlock(
+    int                                                 block_id,
+    int                                                 parameter_block_id,
+    std::string const&                                  nominal_params_string,
+    const std::shared_ptr<nimble::MaterialFactoryBase>& material_factory)
+{
+  parameter_block_[block_id] = parameter_block_id;
+  nominal_parameters_[parameter_block_id] = material_factory->parse_material_params_string(nominal_params_string);
+}
+//===========================================================================
+void
 UqModel::ReadSamples()
 {
   std::ifstream          f(samples_file_name_);
diff --git a/src/uq/nimble_uq.h b/src/uq/nimble_uq.h
index 1b1b1f6..14460ca 100644
--- a/src/uq/nimble_uq.h
+++ b/src/uq/nimble_uq.h
@@ -76,6 +76,14 @@ class UqModel
       bool                                                block_id_present,
       std::map<int, std::shared_ptr<nimble::Block>>&      blocks);
 
+  // every block has the parameters of its material, which are held by one block of that material
+  void
+  AddBlock(
+      int                                                 block_id,
+      int                                                 parameter_block_id,
+      std::string const&                                  nominal_params_string,
+      const std::shared_ptr<nimble::MaterialFactoryBase>& material_factory);
+
   // pre time integration
   void
   Initialize();
@@ -151,7 +159,7 @@ class UqModel
   std::map<std::string,double>
   Parameters(int block_id, int sample_i) 
   {
-    return parameters_[block_id][sample_i];
+    return parameters_.at(parameter_block_.at(block_id)).at(sample_i);
   }
 
  private:
@@ -167,6 +175,7 @@ class UqModel
   const GenesisMesh*               mesh_;
   ModelData*                       data_;
   std::string                      samples_file_name_;
+  std::map<int,int>                parameter_block_; // block holding the parameters of a block
   std::map<int,std::map<std::string,double>> nominal_parameters_; 
   std::map<int,std::map<std::string,double>> parameter_uncertainties_; 
   std::vector<std::pair<int,std::string>> parameter_order_;
diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index 6481387..b8cd967 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -83,6 +83,13 @@ ModelData::InitializeBlocks(
     bool               block_id_present = std::find(block_ids.begin(), block_ids.end(), block_id) != block_ids.end();
     uq_model_->ParseBlockInput(uq_params_this_material, block_id, nominal_params_string, material_factory_base, block_id_present, blocks_);
   }
+  for (int block_id : block_ids) {
+    uq_model_->AddBlock(
+        block_id,
+        parser_.GetBlockIdFromMaterial(parser_.GetModelMaterialKey(block_id)),
+        parser_.GetModelMaterialParameters(block_id),
+        material_factory_base);
+  }
   //
   uq_model_->Initialize();
   //
-- 
2.43.0


From 0155e20838dcd5121599d5136ad512625fdc72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:45 +0000
Subject: [PATCH 44/52] fix: samples of an uncertainty run follow prescribed
 displacements

---
 src/nimble_boundary_condition_manager.h | 11 ++++++++++-
 src/uq/nimble_uq_model_data.cc          |  9 ++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.h b/src/nimble_boundary_condition_manager.h
index ea2570c..4bfb6fd 100644
--- a/src/nimble_boundary_condition_manager.h
+++ b/src/nimble_boundary_condition_manager.h
@@ -142,6 +142,7 @@ class BoundaryConditionManager
       const ViewT         reference_coordinates,
       ViewT               displacement,
       ViewT               velocity,
+      std::vector<ViewT>& offnom_displacements,
       std::vector<ViewT>& offnom_velocities)
   {
     double delta_t = time_current - time_previous;
@@ -192,6 +193,10 @@ class BoundaryConditionManager
           double displacement_magnitude = bc.magnitude_;
           for (int n : node_set) {
             velocity(n, coordinate) = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
+            for (int nuq = 0; nuq < offnom_velocities.size(); nuq++) {
+              offnom_velocities[nuq](n, coordinate) =
+                  (displacement_magnitude - offnom_displacements[nuq](n, coordinate)) / delta_t;
+            }
             if (time_integration_scheme_ == QUASISTATIC) {
               previous.emplace(std::make_pair(n, coordinate), displacement(n, coordinate));
               displacement(n, coordinate) = displacement_magnitude;
@@ -206,6 +211,10 @@ class BoundaryConditionManager
             bc.expression_.t              = time_current;
             double displacement_magnitude = bc.expression_.eval();
             velocity(n, coordinate)       = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
+            for (int nuq = 0; nuq < offnom_velocities.size(); nuq++) {
+              offnom_velocities[nuq](n, coordinate) =
+                  (displacement_magnitude - offnom_displacements[nuq](n, coordinate)) / delta_t;
+            }
             if (time_integration_scheme_ == QUASISTATIC) {
               previous.emplace(std::make_pair(n, coordinate), displacement(n, coordinate));
               displacement(n, coordinate) = displacement_magnitude;
@@ -226,7 +235,7 @@ class BoundaryConditionManager
       ViewT       velocity)
   {
     std::vector<ViewT> empty;
-    ApplyKinematicBC(time_current, time_previous, reference_coordinates, displacement, velocity, empty);
+    ApplyKinematicBC(time_current, time_previous, reference_coordinates, displacement, velocity, empty, empty);
   }
 
   template <typename MatT>
diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index b8cd967..eeda6a1 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -146,7 +146,14 @@ ModelData::ApplyKinematicConditions(nimble::DataManager& data_manager, double ti
   auto reference_coordinate = GetVectorNodeData("reference_coordinate");
   auto displacement         = GetVectorNodeData("displacement");
   auto velocity             = GetVectorNodeData("velocity");
-  bc->ApplyKinematicBC( time_current, time_previous, reference_coordinate, displacement, velocity, velocity_views_); // applied to all 
+  bc->ApplyKinematicBC(
+      time_current,
+      time_previous,
+      reference_coordinate,
+      displacement,
+      velocity,
+      displacement_views_,
+      velocity_views_);  // applied to all
 }
 
 void
-- 
2.43.0


From 1e85aafd6b2f79d60679f8c2c7bd447db67b2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:25 +0000
Subject: [PATCH 45/52] fix: a process without elements accepts element fields
 it cannot know

---
 src/nimble_model_data.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_model_data.cc b/src/nimble_model_data.cc
index 24a8210..86476d0 100644
--- a/src/nimble_model_data.cc
+++ b/src/nimble_model_data.cc
@@ -358,7 +358,8 @@ ModelData::SpecifyOutputFields(const std::string& output_field_string)
       }
     }
 
-    else {
+    // A process without elements knows no element fields
+    else if (!block_ids_.empty()) {
       NIMBLE_ABORT(
           "\nError:  ModelData::SpecifyOutputFields(), unable to process "
           "requested output \"" +
-- 
2.43.0


From fa03eb5212f5f6aee39ea728f825fcba44d3382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:23 +0000
Subject: [PATCH 46/52] fix: refuse an uncertainty samples file without its
 counts

---
 src/uq/nimble_uq.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uq/nimble_uq.cc b/src/uq/nimble_uq.cc
index a2ed7ec..0e2036c 100644
--- a/src/uq/nimble_uq.cc
+++ b/src/uq/nimble_uq.cc
@@ -165,6 +165,9 @@ UqModel::ReadSamples()
   getline(f, line); linenumber++;
   items.clear();
   items = split(line);
+  if (items.size() != 2) {
+    throw std::invalid_argument("\nError: UQ file " + samples_file_name_ + " does not start with the numbers of exact and approximate samples\n");
+  }
   nexact_samples_ = std::stoi(items.front()); // in addition to the nominal
   items.pop_front();
   napprox_samples_ = std::stoi(items.front());
-- 
2.43.0


From 08b7d14b87f080e70f75c4c031072dbb17be1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:24 +0000
Subject: [PATCH 47/52] fix: refuse a mesh whose elements or node sets refer to
 nodes it does not have

---
 src/nimble_genesis_mesh.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 47330ff..54ba0f5 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -310,6 +310,21 @@ GenesisMesh::ReadFile(std::string file_name)
     }
   }
 
+  // Elements and node sets can only refer to nodes of the mesh
+  auto refers_to_missing_node = [num_nodes](std::vector<int> const& nodes) {
+    return std::any_of(nodes.begin(), nodes.end(), [num_nodes](int node) { return node < 0 || node >= num_nodes; });
+  };
+  for (auto const& block : block_elem_connectivity_) {
+    if (refers_to_missing_node(block.second)) {
+      NIMBLE_ABORT("GenesisMesh::ReadFile(), an element refers to a node that is not in the mesh!");
+    }
+  }
+  for (auto const& node_set : node_sets_) {
+    if (refers_to_missing_node(node_set.second)) {
+      NIMBLE_ABORT("GenesisMesh::ReadFile(), a node set refers to a node that is not in the mesh!");
+    }
+  }
+
   retval = ex_close(exodus_file_id);
   if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_close");
 #endif
-- 
2.43.0


From 7fbaafdb7ba025976a91f12ea267b59acee93d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:24 +0000
Subject: [PATCH 48/52] fix: refuse uncertainty lines that lack a file name or
 a range

---
 src/uq/nimble_uq.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/uq/nimble_uq.cc b/src/uq/nimble_uq.cc
index 0e2036c..f8a36b2 100644
--- a/src/uq/nimble_uq.cc
+++ b/src/uq/nimble_uq.cc
@@ -93,13 +93,12 @@ void
 UqModel::ParseConfiguration(std::string const& line)
 {
   std::list<std::string> items = split(line);
-  std::string sampling = items.front();
-  items.pop_front();
-  if (sampling == "file") {
+  if (items.size() > 1 && items.front() == "file") {
+    items.pop_front();
     samples_file_name_ = items.front();
     items.pop_front();
-  } else { 
-    std::cerr << " !! Error when parsing UQ parameters : !! \n";
+  } else {
+    throw std::invalid_argument("\nError: uq model is not given as \"file\" and the name of a samples file: " + line + "\n");
   }
 }
 //===========================================================================
@@ -125,6 +124,9 @@ UqModel::ParseBlockInput(
   while (items.size() > 0) {
       std::string pname = items.front();
       items.pop_front();
+      if (items.empty()) {
+        throw std::invalid_argument("\nError: uq parameter " + pname + " has no range\n");
+      }
       double range = std::stod(items.front());
       items.pop_front();
       parameter_uncertainties_[block_id][pname] = range;
-- 
2.43.0


From 18e01db78c5112cd4a071006ee98bec1cb3e2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:44 +0000
Subject: [PATCH 49/52] fix: looking up an entry of an empty matrix row, or of
 one past the last, read outside the matrix

---
 src/nimble_linear_solver.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 26387d3..5d61e2c 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -91,13 +91,14 @@ CRSMatrixContainer::SetColumnValues(int col, double value)
 int
 CRSMatrixContainer::FindIndex(int i_index, int j_index) const
 {
-  int min        = row_first_index_[i_index];
-  int max        = row_first_index_[i_index + 1];
-  int trial      = (min + max) / 2;
-  int j_value    = j_index_[trial];
+  bool has_row   = i_index >= 0 && i_index < num_rows_;
+  int min        = has_row ? row_first_index_[i_index] : 0;
+  int max        = has_row ? row_first_index_[i_index + 1] : 0;
   int max_trials = max - min;
 
   for (int i = 0; i < max_trials; i++) {
+    int trial   = (min + max) / 2;
+    int j_value = j_index_[trial];
     if (j_value == j_index) {
       return trial;
     } else if (j_value < j_index) {
@@ -105,8 +106,6 @@ CRSMatrixContainer::FindIndex(int i_index, int j_index) const
     } else {
       max = trial;
     }
-    trial   = (min + max) / 2;
-    j_value = j_index_[trial];
   }
 
   throw std::invalid_argument("Error, CRSMatrixContainer::FindIndex() failed to find index.");
-- 
2.43.0


From 781eadc319c89368330e6627b29c41cdaa7b487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 50/52] fix: refuse a mesh whose blocks have more elements than
 the mesh

---
 src/nimble_genesis_mesh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 54ba0f5..53eddc7 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -294,6 +294,10 @@ GenesisMesh::ReadFile(std::string file_name)
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_block");
     block_num_nodes_per_elem_[block_id] = num_nodes_per_elem;
 
+    if (num_elem_this_block > num_elem - elem_local_index) {
+      NIMBLE_ABORT("GenesisMesh::ReadFile(), the element blocks have more elements than the mesh!");
+    }
+
     // global element ids for this block
     block_elem_global_ids_[block_id] = std::vector<int>(num_elem_this_block);
     for (int i = 0; i < num_elem_this_block; i++) {
-- 
2.43.0


From 927e67f9bdcd8d05ac971e04df4b7794f95b7f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 51/52] fix: nodes of one process with the same number overran
 the sums over processes

---
 src/nimble.mpi.reduction.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nimble.mpi.reduction.cc b/src/nimble.mpi.reduction.cc
index 77b3f04..ea9733d 100644
--- a/src/nimble.mpi.reduction.cc
+++ b/src/nimble.mpi.reduction.cc
@@ -45,7 +45,10 @@
 
 #include "nimble.mpi.reduction.h"
 
+#include <algorithm>
+
 #include "nimble.mpi.mpicontext.h"
+#include "nimble_macros.h"
 
 nimble::reduction::ReductionInfo*
 nimble::reduction::GenerateReductionInfo(const std::vector<int>& raw_global_ids, const mpicontext& context)
@@ -55,6 +58,15 @@ nimble::reduction::GenerateReductionInfo(const std::vector<int>& raw_global_ids,
   int    numRanks    = context.get_size();
   size_t nodeIDCount = raw_global_ids.size();
 
+  if (numRanks > 1) {
+    // The ranks that share a node must agree on how many nodes they share
+    vector<int> sorted_ids(raw_global_ids);
+    std::sort(sorted_ids.begin(), sorted_ids.end());
+    if (std::adjacent_find(sorted_ids.begin(), sorted_ids.end()) != sorted_ids.end()) {
+      NIMBLE_ABORT("GenerateReductionInfo(), two nodes of one rank have the same global id!");
+    }
+  }
+
   std::vector<int> IDCounts = context.allgather_to_vector((int)nodeIDCount);
 
   int              maxIDCount         = 0;
-- 
2.43.0


From b31647b7aa215049cb698bb4233e8bb169e910ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:11 +0000
Subject: [PATCH 52/52] fix: the initial values of a material's state variables
 were ignored

---
 src/nimble_block.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_block.cc b/src/nimble_block.cc
index 3b2dff4..69ee7b2 100644
--- a/src/nimble_block.cc
+++ b/src/nimble_block.cc
@@ -179,7 +179,7 @@ Block::InitializeElementData(
     std::string ipt_label = RemoveIntegrationPointPrefix(label);
 
     double initial_value = 0.0;
-    auto   it            = state_variable_initial_values.find(label);
+    auto   it            = state_variable_initial_values.find(ipt_label);
     if (it != state_variable_initial_values.end()) { initial_value = it->second; }
 
     for (int i_elem = 0; i_elem < num_elem_in_block; ++i_elem) {
-- 
2.43.0

