From 1f75b34cd95a74fcfc9f4fa6c25f4882a694adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 01/31] verification hook: execution budget under PE2_VERIF

---
 src/psc/array.cpp       |  6 ++++++
 src/psc/scope/block.cpp |  6 ++++++
 src/psc/verif.h         | 42 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 54 insertions(+)
 create mode 100644 src/psc/verif.h

diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 2cf834b..f100cbc 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -2,6 +2,9 @@
 
 #include "psc/types/types.h"
 #include "psc/array.h"
+#ifdef PE2_VERIF
+#include "psc/verif.h"
+#endif
 
 using namespace PSC;
 
@@ -52,6 +55,9 @@ void Array::init(Context &ctx) {
     unsigned long size = 1;
     for (auto &dim : dimensions) {
         size *= dim.getSize();
+#ifdef PE2_VERIF
+        PSC::Verif::checkCells(ctx, size);
+#endif
     }
 
     data.reserve(size);
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index a80ad80..d0c172f 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -5,6 +5,9 @@
 #include "nodes/loop/control.h"
 #include "psc/error.h"
 #include "psc/scope/block.h"
+#ifdef PE2_VERIF
+#include "psc/verif.h"
+#endif
 
 using namespace PSC;
 
@@ -87,6 +90,9 @@ void Block::_runREPL(PSC::Context &ctx) {
 }
 
 void Block::run(PSC::Context &ctx) {
+#ifdef PE2_VERIF
+    PSC::Verif::BlockGuard guard(ctx, nodes.size());
+#endif
     if (REPLMode) _runREPL(ctx);
     else _run(ctx);
 }
diff --git a/src/psc/verif.h b/src/psc/verif.h
new file mode 100644
index 0000000..bf44333
--- /dev/null
+++ b/src/psc/verif.h
@@ -0,0 +1,42 @@
+#pragma once
+#ifdef PE2_VERIF
+#include <cstdlib>
+#include "psc/error.h"
+#include "psc/scope/context.h"
+
+// Execution budget, only in builds with PE2_VERIF: exceeding it is an ordinary
+// runtime error, so that runs which need unbounded resources end in a defined way.
+namespace PSC::Verif {
+    inline unsigned long limit(const char *name, unsigned long fallback) {
+        const char *value = std::getenv(name);
+        return value == nullptr ? fallback : std::strtoul(value, nullptr, 10);
+    }
+
+    [[noreturn]] inline void exceeded(const Context &ctx) {
+        static const Token token(TokenType::LINE_END, 0, 0);
+        throw RuntimeError(token, ctx, "verification budget exceeded");
+    }
+
+    inline unsigned long steps = 0;
+    inline unsigned long depth = 0;
+    inline unsigned long allCells = 0;
+
+    struct BlockGuard {
+        BlockGuard(const Context &ctx, unsigned long statements) {
+            static const unsigned long maxSteps = limit("PE2_STEPS", 1000000), maxDepth = limit("PE2_DEPTH", 4000);
+            steps += statements + 1;
+            if (steps > maxSteps || depth >= maxDepth) exceeded(ctx);
+            depth++;
+        }
+
+        ~BlockGuard() { depth--; }
+    };
+
+    inline void checkCells(const Context &ctx, unsigned long cells) {
+        static const unsigned long maxCells = limit("PE2_CELLS", 1000000);
+        if (cells > maxCells) exceeded(ctx);
+        allCells += cells;
+        if (allCells > 20 * maxCells) exceeded(ctx);
+    }
+}
+#endif
-- 
2.43.0


From 3dee7facec4685fe7764337bb6d03192b8845b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 02/31] fix: a // comment ends before the line break, which
 still ends the statement

---
 src/lexer/lexer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index e461e40..abafbbe 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -55,8 +55,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             if (idx >= expr->size() || currentChar != '/') {
                 tokens.emplace_back(new Token(TokenType::SLASH, line, column));
             } else {
-                int commentLine = line;
-                while (line == commentLine && idx < expr->size()) advance();
+                while (idx < expr->size() && currentChar != '\n') advance();
             }
             continue;
         } else if (currentChar == '(') {
-- 
2.43.0


From b529243f4ea10f26560e72d3a338deae9b6cc9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 03/31] fix: a // comment directly after a number is not a date
 literal

---
 src/lexer/symbolLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index 7f1ad71..dcea531 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -186,7 +186,7 @@ void Lexer::makeNumber() {
     int i = 0;
     char c = getNextChar(i);
     while (isdigit(c = getNextChar(++i))) {}
-    if (c != '/' || !isdigit(c = getNextChar(++i))) return;
+    if (i < 2 || c != '/' || !isdigit(c = getNextChar(++i))) return;
 
     for (int j = 0; j < i; j++) advance();
     while (isdigit(currentChar) && idx < expr->size()) advance();
-- 
2.43.0


From e72a72e84a7adbe603b249ea0208139b0867317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 04/31] fix: a tab separates an I/O keyword from '(' like a
 space does

---
 src/lexer/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index abafbbe..fdcf968 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -59,7 +59,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             }
             continue;
         } else if (currentChar == '(') {
-            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ') {
+            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ' && (*expr)[idx-1] != '\t') {
                 TokenType t = tokens[tokens.size()-1]->type;
                 if (t == TokenType::INPUT) {
                     throw PSC::LexerError(line, column, "Unexpected '('\n'INTPUT' is statement(not a function) used as 'INPUT <var>' where <var> is a variable to store the input");
-- 
2.43.0


From 0c9e43fcecc393ab09f7f566772bd31afde15199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:41 +0000
Subject: [PATCH 05/31] fix: never produce a DATE that is not a calendar date
 (narrowed components, default value, data files)

---
 src/nodes/eval/arithmetic.cpp     | 10 +++++-----
 src/psc/builtinFunctions/date.cpp | 14 +++++++-------
 src/psc/types/date.cpp            | 28 ++++++++++++++++++++--------
 src/psc/types/types.h             |  5 ++++-
 4 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 86f63e6..41e0eb9 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -58,11 +58,11 @@ inline PSC::Date makeDate(const std::string &dateStr) {
         else yearStr += c;
     }
 
-    std::chrono::day day(std::stoul(dayStr));
-    std::chrono::month month(std::stoul(monthStr));
-    std::chrono::year year(std::stoul(yearStr));
-
-    return PSC::Date(std::chrono::year_month_day(year, month, day));
+    try {
+        return PSC::Date::fromComponents(std::stol(dayStr), std::stol(monthStr), std::stol(yearStr));
+    } catch (const std::out_of_range&) {
+        return PSC::Date::fromComponents(0, 0, 0);
+    }
 }
 
 DateNode::DateNode(const Token &token)
diff --git a/src/psc/builtinFunctions/date.cpp b/src/psc/builtinFunctions/date.cpp
index a24dc1b..5d03ebd 100644
--- a/src/psc/builtinFunctions/date.cpp
+++ b/src/psc/builtinFunctions/date.cpp
@@ -90,15 +90,15 @@ void PSC::BuiltinFnSETDATE::run(PSC::Context &ctx) {
     PSC::Variable *yearVar = ctx.getVariable("Year");
     if (yearVar == nullptr || yearVar->type != PSC::DataType::INTEGER) std::abort();
 
-    day day(dayVar->get<PSC::Integer>().value);
-    month month(monthVar->get<PSC::Integer>().value);
-    year year(yearVar->get<PSC::Integer>().value);
-
-    year_month_day ymd(year, month, day);
-    if (!ymd.ok())
+    Date date = Date::fromComponents(
+        dayVar->get<PSC::Integer>().value,
+        monthVar->get<PSC::Integer>().value,
+        yearVar->get<PSC::Integer>().value
+    );
+    if (!date.date.ok())
         throw PSC::RuntimeError(PSC::errToken, ctx, "Invalid Date!");
 
-    auto ret = std::make_unique<PSC::Date>(ymd);
+    auto ret = std::make_unique<PSC::Date>(date);
 
     ctx.returnValue = std::make_unique<NodeResult>(std::move(ret), PSC::DataType::DATE);
 }
diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index da4421e..0974785 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -7,6 +7,20 @@ using namespace PSC;
 Date::Date(std::chrono::year_month_day date)
     : date(date) {}
 
+Date Date::fromComponents(int_t day, int_t month, int_t year) {
+    // The components of std::chrono::year_month_day are narrower than int_t
+    bool inRange = day >= 1 && day <= 31 && month >= 1 && month <= 12
+        && year >= static_cast<int>(std::chrono::year::min())
+        && year <= static_cast<int>(std::chrono::year::max());
+    if (!inRange) day = month = year = 0;
+
+    return Date(std::chrono::year_month_day(
+        std::chrono::year(static_cast<int>(year)),
+        std::chrono::month(static_cast<unsigned int>(month)),
+        std::chrono::day(static_cast<unsigned int>(day))
+    ));
+}
+
 std::unique_ptr<Integer> Date::toInteger() const {
     unsigned int day = static_cast<unsigned int>(date.day());
     unsigned int month = static_cast<unsigned int>(date.month());
@@ -43,20 +57,18 @@ bool Date::load(std::istream &in, Context&) {
     in >> s;
     if (s != "DATE") return false;
     
-    unsigned int day = 0;
-    unsigned int month = 0;
-    int year = 0;
+    int_t day = 0;
+    int_t month = 0;
+    int_t year = 0;
 
     in >> day;
     in >> month;
     in >> year;
     if (in.fail()) return false;
 
-    date = std::chrono::year_month_day(
-        std::chrono::year(year),
-        std::chrono::month(month),
-        std::chrono::day(day)
-    );
+    Date loaded = fromComponents(day, month, year);
+    if (!loaded.date.ok()) return false;
 
+    date = loaded.date;
     return true;
 }
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 0221de6..d29da57 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -238,12 +238,15 @@ namespace PSC {
 
     class Date : public Primitive {
     public:
-        std::chrono::year_month_day date;
+        std::chrono::year_month_day date{std::chrono::year(1970), std::chrono::month(1), std::chrono::day(1)};
 
         Date() = default;
 
         Date(std::chrono::year_month_day date);
 
+        // Date from unchecked components, `date.ok()` is false if they do not form a valid date
+        static Date fromComponents(int_t day, int_t month, int_t year);
+
         Date(const Date&) = default;
 
         Date &operator=(const Date &other) = default;
-- 
2.43.0


From 42d1c5b0add0465c29a20670e0e293945064abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 06/31] fix: report numeric literals that do not fit their type
 instead of aborting

---
 src/nodes/eval/arithmetic.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 41e0eb9..e58ed94 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -3,15 +3,27 @@
 #include "pch.h"
 
 #include <chrono>
+#include <cmath>
+#include <cstdlib>
 #include <memory>
+#include <stdexcept>
+#include <string>
 #include "psc/error.h"
 #include "nodes/eval/arithmetic.h"
 #include "psc/types/datatypes.h"
 #include "psc/types/type_definitions.h"
 #include "psc/types/types.h"
 
+inline PSC::int_t parseInteger(const Token &token) {
+    try {
+        return std::stol(token.value);
+    } catch (const std::out_of_range&) {
+        throw PSC::SyntaxError(token, "Integer literal is out of range");
+    }
+}
+
 IntegerNode::IntegerNode(const Token &token)
-    : Node(token), valueInt(std::stol(token.value))
+    : Node(token), valueInt(parseInteger(token))
 {}
 
 std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
@@ -19,8 +31,15 @@ std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
 }
 
 
+inline PSC::real_t parseReal(const Token &token) {
+    PSC::real_t x = std::strtod(token.value.c_str(), nullptr);
+    if (std::isinf(x))
+        throw PSC::SyntaxError(token, "Real literal is out of range");
+    return x;
+}
+
 RealNode::RealNode(const Token &token)
-    : Node(token), valueReal(std::stod(token.value))
+    : Node(token), valueReal(parseReal(token))
 {}
 
 std::unique_ptr<NodeResult> RealNode::evaluate(PSC::Context&) {
-- 
2.43.0


From b78b586eb27393bce99631b2ea139a15543514d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 07/31] fix: reject casts to and from DATE and uses of an
 assignment as a value instead of crashing

---
 src/nodes/cast.cpp              | 4 +++-
 src/nodes/eval/stringcat.cpp    | 3 ++-
 src/nodes/selection/case.cpp    | 3 ++-
 src/nodes/variable/variable.cpp | 5 ++++-
 src/parser/parser.cpp           | 2 ++
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index ca1141f..341a602 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -10,9 +10,11 @@ CastNode::CastNode(const Token &token, Node &node, PSC::DataType target)
 std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
     auto value = node.evaluate(ctx);
 
-    if (!value->data->isPrimitive())
+    if (value->type == PSC::DataType::NONE || !value->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
+    if (value->type == PSC::DataType::DATE && target != PSC::DataType::INTEGER && target != PSC::DataType::STRING)
+        throw PSC::InvalidUsageError(token, ctx, "cast: DATE can only be cast to INTEGER or STRING");
 
     auto pvalue = static_cast<const PSC::Primitive*>(value->data.get());
 
diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 6e3d971..26a802d 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -7,7 +7,8 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto leftRes = left.evaluate(ctx);
     auto rightRes = right.evaluate(ctx);
 
-    if (!leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
+    if (leftRes->type == PSC::DataType::NONE || rightRes->type == PSC::DataType::NONE
+        || !leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "'&'");
 
     auto leftStr = static_cast<const PSC::Primitive*>(leftRes->data.get())->toString();
diff --git a/src/nodes/selection/case.cpp b/src/nodes/selection/case.cpp
index 941c025..38fd11d 100644
--- a/src/nodes/selection/case.cpp
+++ b/src/nodes/selection/case.cpp
@@ -42,7 +42,8 @@ bool EqualsCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
             return value.get<PSC::Pointer>().getValue() == res->get<PSC::Pointer>().getValue();
         case PSC::DataType::COMPOSITE:
             return false;
-        case PSC::DataType::NONE: ;
+        case PSC::DataType::NONE:
+            return false;
     }
     std::abort();
 }
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b287444..4a3cd6c 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -89,7 +89,10 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         
         if (pedantic)
             throw PSC::PedanticError(token, "Assigning to undeclared variable");
-        
+
+        if (valueRes->type == PSC::DataType::NONE)
+            throw PSC::InvalidUsageError(token, ctx, "assignment operator: expected a value");
+
         var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx);
         ctx.addVariable(var);
     }
diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index 8446c90..88dce82 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -17,6 +17,8 @@ PSC::DataType Parser::getPSCType() {
         return PSC::DataType::CHAR;
     } else if (currentToken->value == "STRING") {
         return PSC::DataType::STRING;
+    } else if (currentToken->value == "DATE") {
+        return PSC::DataType::DATE;
     } else {
         std::abort();
     }
-- 
2.43.0


From 5f5386c7a34e31b876bc39d0e144886c7dd01788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 08/31] fix: DIV and MOD of the smallest INTEGER by -1 no
 longer kill the interpreter

---
 src/psc/types/numeric.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/numeric.cpp b/src/psc/types/numeric.cpp
index cc023a4..40af52b 100644
--- a/src/psc/types/numeric.cpp
+++ b/src/psc/types/numeric.cpp
@@ -118,7 +118,9 @@ real_t modReal(real_t x, real_t y) {
 std::unique_ptr<Number> Number::operator%(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value % (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // The smallest INTEGER cannot be divided by -1 directly
+        int_t x = divisor == -1 ? 0 : ((Integer*) this)->value % divisor;
         return std::make_unique<Integer>(x);
     }
 
@@ -142,7 +144,10 @@ std::unique_ptr<Number> Number::operator%(const Number &other) const {
 std::unique_ptr<Number> Number::operator|(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value / (Integer&) other;
+        int_t dividend = ((Integer*) this)->value;
+        int_t divisor = (Integer&) other;
+        // The smallest INTEGER cannot be divided by -1 directly
+        int_t x = divisor == -1 ? static_cast<int_t>(0UL - dividend) : dividend / divisor;
         return std::make_unique<Integer>(x);
     }
     
-- 
2.43.0


From 3f059c23ffaf189c8ae4a210132e5b5c084c89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:18 +0000
Subject: [PATCH 09/31] fix: user-defined types are identified by their
 definition, not by name

---
 src/nodes/eval/arithmetic.cpp   | 21 ++++++-------
 src/nodes/io/io.cpp             |  6 ++--
 src/nodes/variable/enum.cpp     |  2 +-
 src/nodes/variable/pointer.cpp  |  2 +-
 src/nodes/variable/resolver.cpp |  2 +-
 src/nodes/variable/variable.cpp |  3 +-
 src/psc/scope/block.cpp         |  6 ++--
 src/psc/scope/context.cpp       |  8 ++---
 src/psc/types/datatypes.h       |  7 +++--
 src/psc/types/type_names.cpp    |  6 ++--
 src/psc/types/types.cpp         |  9 +++---
 src/psc/types/types.h           | 20 +++++--------
 src/psc/types/userType.cpp      | 53 ++++++++++++---------------------
 src/psc/variable.cpp            |  6 ++--
 14 files changed, 64 insertions(+), 87 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index e58ed94..16b5106 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -149,14 +149,13 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
         const PSC::Enum &enumVal = leftRes->get<PSC::Enum>();
         const PSC::Integer &integer = rightRes->get<PSC::Integer>();
 
-        PSC::int_t left, right;
-        if (enumSwap) {
-            left = integer.value;
-            right = enumVal.idx;
-        } else {
-            left = enumVal.idx;
-            right = integer.value;
-        }
+        const PSC::EnumTypeDefinition &definition = enumVal.definition;
+        PSC::int_t enumSize = definition.values.size();
+
+        // Operands are reduced first so that the result does not overflow
+        PSC::int_t left = enumVal.idx;
+        PSC::int_t right = integer.value % enumSize;
+        if (enumSwap) std::swap(left, right);
 
         PSC::int_t res;
         if (token.type == TokenType::PLUS) {
@@ -165,14 +164,12 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
             res = left - right;
         }
 
-        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
-        std::size_t enumSize = definition.values.size();
         res %= enumSize;
         if (res < 0) res += enumSize;
 
-        std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition.name);
+        std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition);
         resEnum->idx = res;
-        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType::ENUM);
+        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType(PSC::DataType::ENUM, &definition));
     }
 
     if ((leftRes->type != PSC::DataType::INTEGER && leftRes->type != PSC::DataType::REAL)
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index e9e2202..a7b1708 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -41,13 +41,13 @@ std::unique_ptr<NodeResult> OutputNode::evaluate(PSC::Context &ctx) {
                 std::cout << str->value;
                 break;
             } case PSC::DataType::ENUM:
-                std::cout << result->get<PSC::Enum>().getString(ctx);
+                std::cout << result->get<PSC::Enum>().getString();
                 break;
             case PSC::DataType::POINTER:
-                std::cout << result->get<PSC::Pointer>().definitionName << " object";
+                std::cout << result->get<PSC::Pointer>().definition.name << " object";
                 break;
             case PSC::DataType::COMPOSITE:
-                std::cout << result->get<PSC::Composite>().definitionName << " object";
+                std::cout << result->get<PSC::Composite>().definition.name << " object";
                 break;
             case PSC::DataType::NONE:
                 std::cout.flush();
diff --git a/src/nodes/variable/enum.cpp b/src/nodes/variable/enum.cpp
index 6b26955..3df3680 100644
--- a/src/nodes/variable/enum.cpp
+++ b/src/nodes/variable/enum.cpp
@@ -11,7 +11,7 @@ std::unique_ptr<NodeResult> EnumDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false))
         throw PSC::RedefinitionError(token, ctx, name.value);
 
-    PSC::EnumTypeDefinition definition(name.value, std::move(values));
+    PSC::EnumTypeDefinition definition(name.value, std::vector<std::string>(values));
     ctx.createEnumDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/pointer.cpp b/src/nodes/variable/pointer.cpp
index 10a1694..8ca4e72 100644
--- a/src/nodes/variable/pointer.cpp
+++ b/src/nodes/variable/pointer.cpp
@@ -45,7 +45,7 @@ std::unique_ptr<NodeResult> PointerAssignNode::evaluate(PSC::Context &ctx) {
         throw PSC::RuntimeError(token, ctx, "Cannot assign pointer to variable not of type pointer");
 
     auto &pointer = pointerVar.get<PSC::Pointer>();
-    auto &pointerType = pointer.getDefinition(ctx).type;
+    auto &pointerType = pointer.definition.type;
     if (pointerType != value.type)
         throw PSC::RuntimeError(token, ctx, "Assignment Error: Incompatible data types");
     
diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 6b4db88..74c8044 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -89,7 +89,7 @@ PSC::DataHolder &CompositeResolver::resolve(PSC::Context &ctx) {
     auto &composite = var.get<PSC::Composite>();
     auto *memberPtr = composite.getMember(member.value);
     if (memberPtr == nullptr)
-        throw PSC::RuntimeError(token, ctx, "Type '" + composite.definitionName + "' has no member '" + member.value + "'");
+        throw PSC::RuntimeError(token, ctx, "Type '" + composite.definition.name + "' has no member '" + member.value + "'");
     
     if (isDynamic) cache.set(memberPtr, ctx);
     return *memberPtr;
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 4a3cd6c..dc515bb 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -148,9 +148,10 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     try {
         holder = &resolver->resolve(ctx);
     } catch (PSC::NotDefinedError &e) {
+        if (dynamic_cast<const SimpleVariableSource*>(resolver.get()) == nullptr) throw e;
         auto def = ctx.getEnumElement(token.value);
         if (def != nullptr)
-            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definitionName));
+            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definition));
         throw e;
     }
 
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index d0c172f..dc7694a 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -46,7 +46,7 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
             break;
         } case PSC::DataType::ENUM: {
             auto &resEnum = result->get<PSC::Enum>();
-            std::cout << resEnum.definitionName << ": " << resEnum.getString(ctx);
+            std::cout << resEnum.definition.name << ": " << resEnum.getString();
             break;
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
@@ -59,7 +59,7 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
                 if (tempCtx == nullptr) valid = false;
             }
 
-            std::cout << resPtr.definitionName << ": ";
+            std::cout << resPtr.definition.name << ": ";
             if (valid) {
                 PSC::Variable *ptrValue = resPtr.getValue();
                 const std::string &valueStr = ptrValue == nullptr ? "null" : ptrValue->name;
@@ -69,7 +69,7 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
             }
             break;
         } case PSC::DataType::COMPOSITE:
-            std::cout << result->get<PSC::Composite>().definitionName << " object";
+            std::cout << result->get<PSC::Composite>().definition.name << " object";
             break;
         case PSC::DataType::NONE:
             return;
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6b64d51..6b7b88e 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -201,15 +201,15 @@ PSC::DataType Context::getType(const Token &token, bool global) {
     } else if (token.type == TokenType::IDENTIFIER) {
         auto *enumDefinition = getEnumDefinition(token.value, global);
         if (enumDefinition != nullptr)
-            return PSC::DataType(PSC::DataType::ENUM, &enumDefinition->name);
+            return PSC::DataType(PSC::DataType::ENUM, enumDefinition);
         
         auto *pointerDefinition = getPointerDefinition(token.value, global);
         if (pointerDefinition != nullptr)
-            return PSC::DataType(PSC::DataType::POINTER, &pointerDefinition->name);
+            return PSC::DataType(PSC::DataType::POINTER, pointerDefinition);
         
         auto *compositeDefinition = getCompositeDefinition(token.value, global);
         if (compositeDefinition != nullptr)
-            return PSC::DataType(PSC::DataType::COMPOSITE, &compositeDefinition->name);
+            return PSC::DataType(PSC::DataType::COMPOSITE, compositeDefinition);
         
         return PSC::DataType(PSC::DataType::NONE);
     }
@@ -232,7 +232,7 @@ Enum *Context::getEnumElement(const std::string &value, bool global) {
     for (auto &definition : enums) {
         for (size_t i = 0; i < definition->values.size(); i++) {
             if (definition->values[i] == value) {
-                auto ptr = new Enum(definition->name);
+                auto ptr = new Enum(*definition);
                 ptr->idx = i;
                 return ptr;
             }
diff --git a/src/psc/types/datatypes.h b/src/psc/types/datatypes.h
index 97787ee..889f8d7 100644
--- a/src/psc/types/datatypes.h
+++ b/src/psc/types/datatypes.h
@@ -1,19 +1,20 @@
 #pragma once
-#include <string>
 
 namespace PSC {
+    struct AbstractTypeDefinition;
+
     struct DataType {
         enum class Type {
             NONE, INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE, ENUM, POINTER, COMPOSITE
         };
 
         using enum Type;
-        const std::string *name;
+        const AbstractTypeDefinition *definition; // Only for user defined types
         Type type;
 
         DataType();
 
-        DataType(Type type, const std::string *name = nullptr);
+        DataType(Type type, const AbstractTypeDefinition *definition = nullptr);
 
         bool operator==(Type other) const;
 
diff --git a/src/psc/types/type_names.cpp b/src/psc/types/type_names.cpp
index b58550e..5488f4f 100644
--- a/src/psc/types/type_names.cpp
+++ b/src/psc/types/type_names.cpp
@@ -27,15 +27,15 @@ std::ostream &PSC::operator<<(std::ostream &os, PSC::DataType &type) {
             break;
         case PSC::DataType::ENUM:
             os << "Enum";
-            if (type.name != nullptr) os << "(" << *type.name << ")";
+            if (type.definition != nullptr) os << "(" << type.definition->name << ")";
             break;
         case PSC::DataType::POINTER:
             os << "Pointer";
-            if (type.name != nullptr) os << "(" << *type.name << ")";
+            if (type.definition != nullptr) os << "(" << type.definition->name << ")";
             break;
         case PSC::DataType::COMPOSITE:
             os << "Composite";
-            if (type.name != nullptr) os << "(" << *type.name << ")";
+            if (type.definition != nullptr) os << "(" << type.definition->name << ")";
             break;
     }
     return os;
diff --git a/src/psc/types/types.cpp b/src/psc/types/types.cpp
index 0d831f0..ebc4677 100644
--- a/src/psc/types/types.cpp
+++ b/src/psc/types/types.cpp
@@ -4,16 +4,15 @@
 
 using namespace PSC;
 
-DataType::DataType() : type(PSC::DataType::NONE) {}
+DataType::DataType() : definition(nullptr), type(PSC::DataType::NONE) {}
 
-DataType::DataType(Type type, const std::string *name)
-    : name(name), type(type) {}
+DataType::DataType(Type type, const AbstractTypeDefinition *definition)
+    : definition(definition), type(type) {}
 
 bool DataType::operator==(Type other) const {
     return type == other;
 }
 
 bool DataType::operator==(const DataType &other) const {
-    if (name == nullptr || other.name == nullptr) return operator==(other.type);
-    return type == other.type && *name == *other.name;
+    return type == other.type && definition == other.definition;
 }
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index d29da57..1e1e2a4 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -274,18 +274,16 @@ namespace PSC {
 
     class Enum : public Custom {
     public:
-        const std::string definitionName;
+        const EnumTypeDefinition &definition;
         std::size_t idx = 0;
 
-        Enum(const std::string &name);
+        Enum(const EnumTypeDefinition &definition);
 
         Enum(const Enum &other) = default;
 
         void operator=(const Enum &other);
 
-        const EnumTypeDefinition &getDefinition(Context &ctx) const;
-
-        std::string getString(Context &ctx) const;
+        const std::string &getString() const;
 
         virtual void dump(std::ostream &out) const override;
 
@@ -298,9 +296,9 @@ namespace PSC {
         Context *varCtx = nullptr;
 
     public:
-        const std::string definitionName;
+        const PointerTypeDefinition &definition;
 
-        Pointer(const std::string &name);
+        Pointer(const PointerTypeDefinition &definition);
 
         Pointer(const Pointer &other);
 
@@ -312,8 +310,6 @@ namespace PSC {
 
         const Context *getCtx() const;
 
-        const PointerTypeDefinition &getDefinition(Context &ctx) const;
-    
         virtual void dump(std::ostream&) const override;
 
         virtual bool load(std::istream&, Context&) override;
@@ -321,10 +317,10 @@ namespace PSC {
 
     class Composite : public Custom {
     public:
-        const std::string definitionName;
+        const CompositeTypeDefinition &definition;
         std::unique_ptr<Context> ctx;
 
-        Composite(const std::string &name, Context &parent);
+        Composite(const CompositeTypeDefinition &definition, Context &parent);
 
         Composite(const Composite &other);
 
@@ -332,8 +328,6 @@ namespace PSC {
 
         DataHolder *getMember(const std::string &name);
 
-        const CompositeTypeDefinition &getDefinition(Context &ctx) const;
-    
         virtual void dump(std::ostream &out) const override;
 
         virtual bool load(std::istream &in, Context &ctx) override;
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 993eecb..c79a6cb 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -6,48 +6,42 @@
 
 using namespace PSC;
 
-Enum::Enum(const std::string &name) : definitionName(name) {}
+Enum::Enum(const EnumTypeDefinition &definition) : definition(definition) {}
 
 void Enum::operator=(const Enum &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definition != &other.definition) std::abort();
     idx = other.idx;
 }
 
-const EnumTypeDefinition &Enum::getDefinition(Context &ctx) const {
-    return *ctx.getEnumDefinition(definitionName);
-}
-
-std::string Enum::getString(Context &ctx) const {
-    const EnumTypeDefinition &definition = getDefinition(ctx);
+const std::string &Enum::getString() const {
     return definition.values[idx];
 }
 
 void Enum::dump(std::ostream &out) const {
-    out << "ENUM " << definitionName << " " << idx;
+    out << "ENUM " << definition.name << " " << idx;
 }
 
-bool Enum::load(std::istream &in, Context &ctx) {
+bool Enum::load(std::istream &in, Context&) {
     std::string s;
     in >> s;
     if (s != "ENUM") return false;
 
     in >> s;
-    const EnumTypeDefinition *def = ctx.getEnumDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definition.name) return false;
 
     size_t idx1;
     in >> idx1;
-    if (in.fail() || idx1 >= def->values.size()) return false;
+    if (in.fail() || idx1 >= definition.values.size()) return false;
 
     idx = idx1;
     return true;
 }
 
-Pointer::Pointer(const std::string &name)
-    : definitionName(name) {}
+Pointer::Pointer(const PointerTypeDefinition &definition)
+    : definition(definition) {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definitionName(other.definitionName)
+    : ptr(other.ptr), varCtx(other.varCtx), definition(other.definition)
 {}
 
 void Pointer::setValue(Variable *value) {
@@ -59,7 +53,7 @@ void Pointer::setValue(Variable *value) {
 }
 
 void Pointer::operator=(const Pointer &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definition != &other.definition) std::abort();
     ptr = other.ptr;
     varCtx = other.varCtx;
 }
@@ -72,10 +66,6 @@ const Context *Pointer::getCtx() const {
     return varCtx;
 }
 
-const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-    return *ctx.getPointerDefinition(definitionName);
-}
-
 void Pointer::dump(std::ostream&) const {}
 
 bool Pointer::load(std::istream&, Context&) {
@@ -83,20 +73,20 @@ bool Pointer::load(std::istream&, Context&) {
 }
 
 
-Composite::Composite(const std::string &name, Context &parent)
-    : definitionName(name),
-    ctx(std::make_unique<Context>(&parent, definitionName, true))
+Composite::Composite(const CompositeTypeDefinition &definition, Context &parent)
+    : definition(definition),
+    ctx(std::make_unique<Context>(&parent, definition.name, true))
 {
-    getDefinition(*ctx).initBlock.run(*ctx);
+    definition.initBlock.run(*ctx);
 }
 
 Composite::Composite(const Composite &other)
-    : definitionName(other.definitionName),
+    : definition(other.definition),
     ctx(std::make_unique<Context>(*other.ctx))
 {}
 
 void Composite::operator=(const Composite &other) {
-    if (definitionName != other.definitionName) std::abort();
+    if (&definition != &other.definition) std::abort();
     ctx->copyVariableData(*other.ctx);
 }
 
@@ -108,12 +98,8 @@ DataHolder *Composite::getMember(const std::string &name) {
     return arr;
 }
 
-const CompositeTypeDefinition &Composite::getDefinition(PSC::Context &ctx) const {
-    return *ctx.getCompositeDefinition(definitionName);
-}
-
 void Composite::dump(std::ostream &out) const {
-    out << "COMPOSITE " << definitionName << " ";
+    out << "COMPOSITE " << definition.name << " ";
 
     const auto &vars = ctx->getVariables();
     for (size_t i = 0; i < vars.size(); i++) {
@@ -135,8 +121,7 @@ bool Composite::load(std::istream &in, Context &ctx) {
     if (s != "COMPOSITE") return false;
 
     in >> s;
-    const CompositeTypeDefinition *def = ctx.getCompositeDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definition.name) return false;
 
     for (const auto &var : this->ctx->getVariables()) {
         if (!var->load(in, ctx)) return false;
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index 1619079..e4b6060 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -37,13 +37,13 @@ Variable::Variable(const std::string &name, DataType type, bool isConstant, Cont
             data = new PSC::Date();
             break;
         case DataType::ENUM:
-            data = new PSC::Enum(*type.name);
+            data = new PSC::Enum(*static_cast<const PSC::EnumTypeDefinition*>(type.definition));
             break;
         case DataType::POINTER:
-            data = new PSC::Pointer(*type.name);
+            data = new PSC::Pointer(*static_cast<const PSC::PointerTypeDefinition*>(type.definition));
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*type.name, *ctx);
+            data = new PSC::Composite(*static_cast<const PSC::CompositeTypeDefinition*>(type.definition), *ctx);
             break;
         case DataType::NONE:
             std::abort();
-- 
2.43.0


From d005885429b58e252f8802ed6cbf5e31ae890359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:50 +0000
Subject: [PATCH 10/31] fix: records and arrays are copied deeply and in place

---
 src/nodes/functions/function.cpp  | 34 +------------------------
 src/nodes/functions/procedure.cpp | 34 +------------------------
 src/nodes/io/file.cpp             |  4 +--
 src/nodes/variable/variable.cpp   | 40 ++++++------------------------
 src/psc/array.cpp                 | 27 +++++++++++---------
 src/psc/array.h                   |  7 +++---
 src/psc/scope/context.cpp         | 41 +++++++++++++++++++------------
 src/psc/scope/context.h           |  5 +++-
 src/psc/types/types.h             |  5 ++++
 src/psc/types/userType.cpp        | 15 ++++++++---
 src/psc/variable.cpp              | 37 ++++++++++++++--------------
 src/psc/variable.h                |  8 ++++--
 12 files changed, 102 insertions(+), 155 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 15ed111..0ce3289 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -100,39 +100,7 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
             PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
             var = original.createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get());
-
-            switch (var->type.type) {
-                case PSC::DataType::INTEGER:
-                    var->get<PSC::Integer>() = argRes->get<PSC::Integer>();
-                    break;
-                case PSC::DataType::REAL:
-                    var->get<PSC::Real>() = argRes->get<PSC::Real>();
-                    break;
-                case PSC::DataType::BOOLEAN:
-                    var->get<PSC::Boolean>() = argRes->get<PSC::Boolean>();
-                    break;
-                case PSC::DataType::CHAR:
-                    var->get<PSC::Char>() = argRes->get<PSC::Char>();
-                    break;
-                case PSC::DataType::STRING:
-                    var->get<PSC::String>() = argRes->get<PSC::String>();
-                    break;
-                case PSC::DataType::DATE:
-                    var->get<PSC::Date>() = argRes->get<PSC::Date>();
-                    break;
-                case PSC::DataType::ENUM:
-                    var->get<PSC::Enum>() = argRes->get<PSC::Enum>();
-                    break;
-                case PSC::DataType::POINTER:
-                    var->get<PSC::Pointer>() = argRes->get<PSC::Pointer>();
-                    break;
-                case PSC::DataType::COMPOSITE:
-                    var->get<PSC::Composite>() = argRes->get<PSC::Composite>();
-                    break;
-                case PSC::DataType::NONE:
-                    std::abort();
-            }
+            var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get(), argRes->data.get());
         }
 
         functionCtx->addVariable(var);
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index e84dc65..a817960 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -92,39 +92,7 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
             PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
             var = original.createReference(parameter.name);
         } else {
-            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());
-
-            switch (var->type.type) {
-                case PSC::DataType::INTEGER:
-                    var->get<PSC::Integer>() = argRes->get<PSC::Integer>();
-                    break;
-                case PSC::DataType::REAL:
-                    var->get<PSC::Real>() = argRes->get<PSC::Real>();
-                    break;
-                case PSC::DataType::BOOLEAN:
-                    var->get<PSC::Boolean>() = argRes->get<PSC::Boolean>();
-                    break;
-                case PSC::DataType::CHAR:
-                    var->get<PSC::Char>() = argRes->get<PSC::Char>();
-                    break;
-                case PSC::DataType::STRING:
-                    var->get<PSC::String>() = argRes->get<PSC::String>();
-                    break;
-                case PSC::DataType::DATE:
-                    var->get<PSC::Date>() = argRes->get<PSC::Date>();
-                    break;
-                case PSC::DataType::ENUM:
-                    var->get<PSC::Enum>() = argRes->get<PSC::Enum>();
-                    break;
-                case PSC::DataType::POINTER:
-                    var->get<PSC::Pointer>() = argRes->get<PSC::Pointer>();
-                    break;
-                case PSC::DataType::COMPOSITE:
-                    var->get<PSC::Composite>() = argRes->get<PSC::Composite>();
-                    break;
-                case PSC::DataType::NONE:
-                    std::abort();
-            }
+            var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get(), argRes->data.get());
         }
 
         procedureCtx->addVariable(var);
diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index cb67719..5841d12 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -49,9 +49,7 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
     
-    PSC::String *data = new PSC::String;
-    *data = file->read();
-    var->set(data);
+    var->assign(file->read());
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index dc515bb..772d3fe 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -61,6 +61,8 @@ void AssignNode::assignArray(PSC::Context &ctx, const PSC::ArrayDirectAccessErro
         throw PSC::RuntimeError(token, ctx, "Cannot assign arrays of different data type");
     if (arr->dimensions != array->dimensions)
         throw PSC::RuntimeError(token, ctx, "Cannot assign arrays of different dimensions");
+    if (!arr->sameShape(*array))
+        throw PSC::RuntimeError(token, ctx, "Cannot assign records with array fields of different dimensions");
 
     arr->copyData(*array);
 }
@@ -93,8 +95,9 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         if (valueRes->type == PSC::DataType::NONE)
             throw PSC::InvalidUsageError(token, ctx, "assignment operator: expected a value");
 
-        var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx);
+        var = new PSC::Variable(simpleSource->getName(), valueRes->type, false, &ctx, valueRes->data.get());
         ctx.addVariable(var);
+        return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
     }
 
     if (var->isConstant)
@@ -104,37 +107,10 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
     if (var->type != valueRes->type)
         throw PSC::InvalidUsageError(token, ctx, "assignment operator: incompatible data types");
 
-    switch (var->type.type) {
-        case PSC::DataType::INTEGER:
-            var->get<PSC::Integer>() = valueRes->get<PSC::Integer>();
-            break;
-        case PSC::DataType::REAL:
-            var->get<PSC::Real>() = valueRes->get<PSC::Real>();
-            break;
-        case PSC::DataType::BOOLEAN:
-            var->get<PSC::Boolean>() = valueRes->get<PSC::Boolean>();
-            break;
-        case PSC::DataType::CHAR:
-            var->get<PSC::Char>() = valueRes->get<PSC::Char>();
-            break;
-        case PSC::DataType::STRING:
-            var->get<PSC::String>() = valueRes->get<PSC::String>();
-            break;
-        case PSC::DataType::DATE:
-            var->get<PSC::Date>() = valueRes->get<PSC::Date>();
-            break;
-        case PSC::DataType::ENUM:
-            var->get<PSC::Enum>() = valueRes->get<PSC::Enum>();
-            break;
-        case PSC::DataType::POINTER:
-            var->get<PSC::Pointer>() = valueRes->get<PSC::Pointer>();
-            break;
-        case PSC::DataType::COMPOSITE:
-            var->get<PSC::Composite>() = valueRes->get<PSC::Composite>();
-            break;
-        case PSC::DataType::NONE:
-            std::abort();
-    }
+    if (var->type == PSC::DataType::COMPOSITE && !var->get<PSC::Composite>().sameShape(valueRes->get<PSC::Composite>()))
+        throw PSC::RuntimeError(token, ctx, "Cannot assign records with array fields of different dimensions");
+
+    var->assign(*valueRes->data);
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index f100cbc..2e76bd8 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -29,26 +29,31 @@ Array::Array(const std::string &name, DataType type, const std::vector<ArrayDime
     : DataHolder(name), type(type), dimensions(dimensions)
 {}
 
-Array::Array(const Array &other)
+Array::Array(const Array &other, Context &ctx)
     : DataHolder(other.name),
     type(other.type),
-    dimensions(Array::copyDimensions(other.dimensions))
-{}
+    dimensions(other.dimensions)
+{
+    data.reserve(other.data.size());
+    for (const auto &element : other.data) {
+        data.emplace_back(std::make_unique<PSC::Variable>(*element, &ctx));
+    }
+}
 
 void Array::copyData(const Array &other) {
     for (size_t i = 0; i < data.size(); i++) {
-        data[i] = std::make_unique<PSC::Variable>(*(other.data[i]), other.data[i]->parent);
+        data[i]->assign(other.data[i]->get<PSC::Value>());
     }
 }
 
-const std::vector<ArrayDimension> Array::copyDimensions(const std::vector<ArrayDimension> &source) {
-    std::vector<ArrayDimension> copy;
-    size_t size = source.size();
-    copy.reserve(size);
-    for (size_t i = 0; i < size; i++) {
-        copy.emplace_back(source[i]);
+bool Array::sameShape(const Array &other) const {
+    if (dimensions != other.dimensions) return false;
+    if (type != PSC::DataType::COMPOSITE) return true;
+
+    for (size_t i = 0; i < data.size(); i++) {
+        if (!data[i]->sameShape(*other.data[i])) return false;
     }
-    return copy;
+    return true;
 }
 
 void Array::init(Context &ctx) {
diff --git a/src/psc/array.h b/src/psc/array.h
index 7e12b70..70e327d 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -26,18 +26,19 @@ namespace PSC {
     private:
         std::vector<std::unique_ptr<Variable>> data;
 
-        static const std::vector<ArrayDimension> copyDimensions(const std::vector<ArrayDimension> &source);
-
     public:
         const DataType type;
         const std::vector<ArrayDimension> dimensions;
 
         Array(const std::string &name, DataType type, const std::vector<ArrayDimension> &dimensions);
 
-        Array(const Array &other);
+        Array(const Array &other, Context &ctx);
 
+        // Copies the elements of an array of the same type and dimensions
         void copyData(const Array &other);
 
+        bool sameShape(const Array &other) const;
+
         constexpr bool isArray() const override {return true;}
 
         // Allocates memory for elements
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6b7b88e..ddcbc6a 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -18,32 +18,41 @@ Context::Context(Context *parent, const std::string &name, bool isCompositeCtx)
     : parent(parent), name(name), isFunctionCtx(false), isCompositeCtx(isCompositeCtx), returnType(PSC::DataType::NONE)
 {}
 
-template<typename T, typename... Args>
-void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<std::unique_ptr<T>> &dest, Args&&... args) {
-    size_t size = source.size();
-    dest.reserve(size);
-    for (size_t i = 0; i < size; i++) {
-        dest.emplace_back(std::make_unique<T>(*source[i], std::forward<Args>(args)...));
-    }
-}
-
-Context::Context(const Context &other)
-    : parent(other.parent),
+Context::Context(const Context &other, Context *parent)
+    : parent(parent),
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
     isCompositeCtx(other.isCompositeCtx),
     returnType(other.returnType)
 {
-    copyPtrVector(other.variables, variables, this);
-    copyPtrVector(other.arrays, arrays);
-    copyPtrVector(other.procedures, procedures);
-    copyPtrVector(other.functions, functions);
+    variables.reserve(other.variables.size());
+    for (const auto &variable : other.variables) {
+        variables.emplace_back(std::make_unique<Variable>(*variable, this));
+    }
+
+    arrays.reserve(other.arrays.size());
+    for (const auto &array : other.arrays) {
+        arrays.emplace_back(std::make_unique<Array>(*array, *this));
+    }
 }
 
 void Context::copyVariableData(const Context &other) {
     for (size_t i = 0; i < variables.size(); i++) {
-        variables[i]->set(&other.variables[i]->get<Value>(), true);
+        variables[i]->assign(other.variables[i]->get<Value>());
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        arrays[i]->copyData(*other.arrays[i]);
+    }
+}
+
+bool Context::sameShape(const Context &other) const {
+    for (size_t i = 0; i < variables.size(); i++) {
+        if (!variables[i]->sameShape(*other.variables[i])) return false;
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        if (!arrays[i]->sameShape(*other.arrays[i])) return false;
     }
+    return true;
 }
 
 Context::~Context() {
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index deba644..24288fd 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -43,11 +43,14 @@ namespace PSC {
         Context(Context *parent, const std::string &name, bool isCompositeCtx);
 
         // For copying composites
-        explicit Context(const Context &other);
+        Context(const Context &other, Context *parent);
 
         // Only for composites
         void copyVariableData(const Context &other);
 
+        // Only for composites
+        bool sameShape(const Context &other) const;
+
         ~Context();
 
         static std::unique_ptr<Context> createGlobalContext();
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 1e1e2a4..98cb095 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -324,8 +324,13 @@ namespace PSC {
 
         Composite(const Composite &other);
 
+        Composite(const Composite &other, Context &parent);
+
         void operator=(const Composite &other);
 
+        // Whether all array fields have the same dimensions
+        bool sameShape(const Composite &other) const;
+
         DataHolder *getMember(const std::string &name);
 
         virtual void dump(std::ostream &out) const override;
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index c79a6cb..0cc58b6 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -81,20 +81,29 @@ Composite::Composite(const CompositeTypeDefinition &definition, Context &parent)
 }
 
 Composite::Composite(const Composite &other)
+    : Composite(other, *other.ctx->getParent())
+{}
+
+Composite::Composite(const Composite &other, Context &parent)
     : definition(other.definition),
-    ctx(std::make_unique<Context>(*other.ctx))
+    ctx(std::make_unique<Context>(*other.ctx, &parent))
 {}
 
 void Composite::operator=(const Composite &other) {
     if (&definition != &other.definition) std::abort();
+    if (this == &other) return;
     ctx->copyVariableData(*other.ctx);
 }
 
+bool Composite::sameShape(const Composite &other) const {
+    return ctx->sameShape(*other.ctx);
+}
+
 DataHolder *Composite::getMember(const std::string &name) {
-    PSC::Variable *var = ctx->getVariable(name);
+    PSC::Variable *var = ctx->getVariable(name, false);
     if (var != nullptr) return var;
 
-    PSC::Array *arr = ctx->getArray(name);
+    PSC::Array *arr = ctx->getArray(name, false);
     return arr;
 }
 
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index e4b6060..402e230 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -1,6 +1,7 @@
 #include "pch.h"
 
 #include "psc/variable.h"
+#include "psc/scope/context.h"
 
 using namespace PSC;
 
@@ -13,8 +14,8 @@ Variable::Variable(const std::string &name, Variable *v)
 Variable::Variable(const std::string &name, DataType type, bool isConstant, Context *ctx, const Value *initialData)
     : DataHolder(name), data(nullptr), ref(nullptr), type(type), isConstant(isConstant), parent(ctx)
 {
-    if (initialData != nullptr) {
-        set(const_cast<Value*>(initialData), true);
+    if (initialData != nullptr && type == DataType::COMPOSITE) {
+        data = new PSC::Composite(*static_cast<const PSC::Composite*>(initialData), *ctx);
         return;
     }
     switch (type.type) {
@@ -48,6 +49,7 @@ Variable::Variable(const std::string &name, DataType type, bool isConstant, Cont
         case DataType::NONE:
             std::abort();
     }
+    if (initialData != nullptr) assign(*initialData);
 }
 
 Variable::Variable(const Variable &other, Context *ctx)
@@ -58,46 +60,45 @@ Variable::~Variable() {
     if (ref == nullptr) delete data;
 }
 
-void Variable::set(Value *_data, bool copy) {
-    if (data != nullptr) delete data;
-    if (!copy) {
-        data = _data;
-        return;
-    }
-
+void Variable::assign(const Value &value) {
     switch (type.type) {
         case DataType::INTEGER:
-            data = new PSC::Integer(*((const PSC::Integer*) _data));
+            get<PSC::Integer>() = static_cast<const PSC::Integer&>(value);
             break;
         case DataType::REAL:
-            data = new PSC::Real(*((const PSC::Real*) _data));
+            get<PSC::Real>() = static_cast<const PSC::Real&>(value);
             break;
         case DataType::BOOLEAN:
-            data = new PSC::Boolean(*((const PSC::Boolean*) _data));
+            get<PSC::Boolean>() = static_cast<const PSC::Boolean&>(value);
             break;
         case DataType::CHAR:
-            data = new PSC::Char(*((const PSC::Char*) _data));
+            get<PSC::Char>() = static_cast<const PSC::Char&>(value);
             break;
         case DataType::STRING:
-            data = new PSC::String(*((const PSC::String*) _data));
+            get<PSC::String>() = static_cast<const PSC::String&>(value);
             break;
         case DataType::DATE:
-            data = new PSC::Date(*((const PSC::Date*) _data));
+            get<PSC::Date>() = static_cast<const PSC::Date&>(value);
             break;
         case DataType::ENUM:
-            data = new PSC::Enum(*((const PSC::Enum*) _data));
+            get<PSC::Enum>() = static_cast<const PSC::Enum&>(value);
             break;
         case DataType::POINTER:
-            data = new PSC::Pointer(*((const PSC::Pointer*) _data));
+            get<PSC::Pointer>() = static_cast<const PSC::Pointer&>(value);
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*((const PSC::Composite*) _data));
+            get<PSC::Composite>() = static_cast<const PSC::Composite&>(value);
             break;
         case DataType::NONE:
             std::abort();
     }
 }
 
+bool Variable::sameShape(const Variable &other) const {
+    if (type != PSC::DataType::COMPOSITE) return true;
+    return getConst<PSC::Composite>().sameShape(other.getConst<PSC::Composite>());
+}
+
 Variable *Variable::createReference(const std::string &refName) {
     Variable *v = ref == nullptr ? this : ref;
     return new Variable(refName, v);
diff --git a/src/psc/variable.h b/src/psc/variable.h
index 7ce64d8..836c5a6 100644
--- a/src/psc/variable.h
+++ b/src/psc/variable.h
@@ -41,13 +41,17 @@ namespace PSC {
 
         constexpr bool isArray() const override {return false;}
 
-        void set(Value *_data, bool copy = false);
+        // Copies a value of the variable's type into the variable
+        void assign(const Value &value);
+
+        // Whether a value of the same type can be copied without changing the bounds of any array in it
+        bool sameShape(const Variable &other) const;
 
         template<std::derived_from<Value> T>
         T &get() { return *((T*) data); }
 
         template<std::derived_from<Value> T>
-        T &getConst() const { return *((const T*) data); }
+        const T &getConst() const { return *((const T*) data); }
 
         Variable *createReference(const std::string &refName);
 
-- 
2.43.0


From f1aa0204da2befd85dd45e5f5e8916f7c3ce86d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 11/31] fix: blank and comment lines are allowed inside TYPE
 ... ENDTYPE

---
 src/parser/userType.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/userType.cpp b/src/parser/userType.cpp
index df62671..4c01156 100644
--- a/src/parser/userType.cpp
+++ b/src/parser/userType.cpp
@@ -59,7 +59,10 @@ Node *Parser::parseComposite(const Token &token, const Token &identifier) {
     PSC::Block *block = new PSC::Block();
     blocks.emplace_back(block);
 
-    while (currentToken->type == TokenType::DECLARE) {
+    while (true) {
+        while (currentToken->type == TokenType::LINE_END) advance();
+        if (currentToken->type != TokenType::DECLARE) break;
+
         Node *declareNode = parseDeclareExpression();
         block->addNode(declareNode);
 
-- 
2.43.0


From 4763b690695334d6359b9be4db3aec9f5b11b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 12/31] fix: a '.' that is not followed by a field name is a
 syntax error

---
 src/parser/variableExprParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/variableExprParser.cpp b/src/parser/variableExprParser.cpp
index f2b330d..edbe24d 100644
--- a/src/parser/variableExprParser.cpp
+++ b/src/parser/variableExprParser.cpp
@@ -84,6 +84,9 @@ std::unique_ptr<AbstractVariableResolver> Parser::parseIdentifierExpression() {
                 const Token &token = *currentToken;
                 advance();
 
+                if (currentToken->type != TokenType::IDENTIFIER)
+                    throw PSC::ExpectedTokenError(*currentToken, "identifier");
+
                 resolver = std::make_unique<CompositeResolver>(token, std::move(resolver), *currentToken);
                 advance();
                 break;
-- 
2.43.0


From 987992491f86b7c9c55e23c911b2badd8aa1f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 13/31] fix: CASE ranges compare INTEGER exactly and match CHAR
 and DATE values

---
 src/nodes/selection/case.cpp | 57 +++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/nodes/selection/case.cpp b/src/nodes/selection/case.cpp
index 38fd11d..0d49e29 100644
--- a/src/nodes/selection/case.cpp
+++ b/src/nodes/selection/case.cpp
@@ -53,27 +53,56 @@ RangeCaseComponent::RangeCaseComponent(PSC::Block &block, Node &lowerBound, Node
     : CaseComponent(block), lowerBound(lowerBound), upperBound(upperBound)
 {}
 
+static bool isNumeric(const NodeResult &value) {
+    return value.type == PSC::DataType::INTEGER || value.type == PSC::DataType::REAL;
+}
+
+// Compares two numbers, exactly if both are integers
+static bool lessOrEqual(const NodeResult &left, const NodeResult &right) {
+    if (left.type == PSC::DataType::INTEGER && right.type == PSC::DataType::INTEGER)
+        return left.get<PSC::Integer>().value <= right.get<PSC::Integer>().value;
+
+    PSC::real_t leftValue, rightValue;
+    if (left.type == PSC::DataType::INTEGER) leftValue = left.get<PSC::Integer>().value;
+    else leftValue = left.get<PSC::Real>().value;
+    if (right.type == PSC::DataType::INTEGER) rightValue = right.get<PSC::Integer>().value;
+    else rightValue = right.get<PSC::Real>().value;
+
+    return leftValue <= rightValue;
+}
+
 bool RangeCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
-    PSC::real_t testValue;
-    if (value.type == PSC::DataType::INTEGER) testValue = value.get<PSC::Integer>().value;
-    else if (value.type == PSC::DataType::REAL) testValue = value.get<PSC::Real>().value;
-    else return false;
+    bool isChar = value.type == PSC::DataType::CHAR;
+    bool isDate = value.type == PSC::DataType::DATE;
+    if (!isNumeric(value) && !isChar && !isDate) return false;
 
-    PSC::real_t lowerVal;
     auto lower = lowerBound.evaluate(ctx);
+    if (isChar || isDate) {
+        if (lower->type != value.type)
+            throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of the same type as the value");
+    } else if (!isNumeric(*lower)) {
+        throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of type INTEGER or REAL");
+    }
 
-    if (lower->type == PSC::DataType::INTEGER) lowerVal = lower->get<PSC::Integer>().value;
-    else if (lower->type == PSC::DataType::REAL) lowerVal = lower->get<PSC::Real>().value;
-    else throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of type INTEGER or REAL");
-
-    PSC::real_t upperVal;
     auto upper = upperBound.evaluate(ctx);
+    if (isChar || isDate) {
+        if (upper->type != value.type)
+            throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of the same type as the value");
+    } else if (!isNumeric(*upper)) {
+        throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
+    }
 
-    if (upper->type == PSC::DataType::INTEGER) upperVal = upper->get<PSC::Integer>().value;
-    else if (upper->type == PSC::DataType::REAL) upperVal = upper->get<PSC::Real>().value;
-    else throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
+    if (isChar) {
+        const PSC::Char &c = value.get<PSC::Char>();
+        return lower->get<PSC::Char>().value <= c.value && c.value <= upper->get<PSC::Char>().value;
+    }
+
+    if (isDate) {
+        const PSC::Date &d = value.get<PSC::Date>();
+        return lower->get<PSC::Date>().date <= d.date && d.date <= upper->get<PSC::Date>().date;
+    }
 
-    return (lowerVal <= testValue) && (testValue <= upperVal);
+    return lessOrEqual(*lower, value) && lessOrEqual(value, *upper);
 }
 
 
-- 
2.43.0


From 7249e67b16c4f098da3bcd387bed967c5fd9992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 14/31] fix: CONTINUE in a REPEAT loop goes on to the UNTIL
 test

---
 src/nodes/loop/repeatUntil.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nodes/loop/repeatUntil.cpp b/src/nodes/loop/repeatUntil.cpp
index 7308ff0..cb4a43c 100644
--- a/src/nodes/loop/repeatUntil.cpp
+++ b/src/nodes/loop/repeatUntil.cpp
@@ -14,9 +14,7 @@ std::unique_ptr<NodeResult> RepeatUntilNode::evaluate(PSC::Context &ctx) {
             block.run(ctx);
         } catch (BreakErrSignal&) {
             break;
-        } catch (ContinueErrSignal&) {
-            continue;
-        }
+        } catch (ContinueErrSignal&) {}
 
         auto conditionRes = node.evaluate(ctx);
         
-- 
2.43.0


From f1a8714a3e3f8bc16ccade1dd3ec078f07e2e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 15/31] fix: BREAK and CONTINUE outside a loop of their own
 procedure are errors

---
 src/psc/procedure.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psc/procedure.cpp b/src/psc/procedure.cpp
index b5d43d4..2c5d162 100644
--- a/src/psc/procedure.cpp
+++ b/src/psc/procedure.cpp
@@ -1,5 +1,7 @@
 #include "pch.h"
 
+#include "nodes/loop/control.h"
+#include "psc/error.h"
 #include "psc/scope/block.h"
 #include "psc/scope/context.h"
 #include "procedure.h"
@@ -32,7 +34,13 @@ std::vector<PSC::DataType> Procedure::getTypes() const {
 }
 
 void Procedure::run(PSC::Context &ctx) {
-    block->run(ctx);
+    try {
+        block->run(ctx);
+    } catch (BreakErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'BREAK' statement");
+    } catch (ContinueErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'CONTINUE' statement");
+    }
 }
 
 Function::Function(
-- 
2.43.0


From 697f4a5cd84e7e6fe60fa8535f101b3bd6b0cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 16/31] fix: a local variable or array hides every global of
 its name; file statements check the handle before the target

---
 src/nodes/io/file.cpp           | 60 ++++++++++++++++-----------------
 src/nodes/loop/for.cpp          | 12 ++++---
 src/nodes/variable/resolver.cpp | 14 +++-----
 src/psc/scope/context.cpp       | 21 ++++++++++--
 src/psc/scope/context.h         |  5 +++
 5 files changed, 64 insertions(+), 48 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 5841d12..cc8f9e5 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -34,21 +34,28 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     if (filenameRes->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
 
-    PSC::Variable *var = ctx.getVariable(identifier.value);
-    if (var == nullptr) {
-        var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
-        ctx.addVariable(var);
-    }
-    if (var->type != PSC::DataType::STRING)
-        throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
-
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
     if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
-    
+    if (file->getMode() != PSC::FileMode::READ)
+        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not opened for reading");
+
+    PSC::DataHolder *holder = ctx.getDataHolder(identifier.value);
+    if (holder == nullptr) {
+        auto *variable = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
+        ctx.addVariable(variable);
+        holder = variable;
+    } else if (holder->isArray()) {
+        throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
+    }
+
+    PSC::Variable *var = static_cast<PSC::Variable*>(holder);
+    if (var->type != PSC::DataType::STRING)
+        throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
+
     var->assign(file->read());
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
@@ -172,21 +179,16 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'GETRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
-    if (variable == nullptr && array == nullptr)
+    PSC::DataHolder *holder = ctx.getDataHolder(identifier.value);
+    if (holder == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
-    if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
-        || (array != nullptr && array->type == PSC::DataType::POINTER))
+    PSC::DataType type = holder->isArray()
+        ? static_cast<PSC::Array*>(holder)->type : static_cast<PSC::Variable*>(holder)->type;
+    if (type == PSC::DataType::POINTER)
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
-    if (variable != nullptr) {
-        if (!file->getRecord(*variable, ctx))
-            throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
-    } else {
-        if (!file->getRecord(*array, ctx))
-            throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
-    }
+    if (!file->getRecord(*holder, ctx))
+        throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
@@ -207,19 +209,15 @@ std::unique_ptr<NodeResult> PutRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'PUTRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
-    if (variable == nullptr && array == nullptr)
+    PSC::DataHolder *holder = ctx.getDataHolder(identifier.value);
+    if (holder == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
-    if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
-        || (array != nullptr && array->type == PSC::DataType::POINTER))
+    PSC::DataType type = holder->isArray()
+        ? static_cast<PSC::Array*>(holder)->type : static_cast<PSC::Variable*>(holder)->type;
+    if (type == PSC::DataType::POINTER)
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
-    if (variable != nullptr) {
-        file->putRecord(*variable);
-    } else {
-        file->putRecord(*array);
-    }
+    file->putRecord(*holder);
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 9cbc72f..4d49b84 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -14,12 +14,16 @@ ForLoopNode::ForLoopNode(const Token &token, const Token &identifier, Node &star
 {}
 
 std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
-    PSC::Variable *iterator = ctx.getVariable(identifier.value);
-    if (iterator == nullptr) {
-        iterator = new PSC::Variable(identifier.value, PSC::DataType::INTEGER, false, &ctx);
-        ctx.addVariable(iterator);
+    PSC::DataHolder *holder = ctx.getDataHolder(identifier.value);
+    if (holder == nullptr) {
+        auto *variable = new PSC::Variable(identifier.value, PSC::DataType::INTEGER, false, &ctx);
+        ctx.addVariable(variable);
+        holder = variable;
+    } else if (holder->isArray()) {
+        throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
     }
 
+    PSC::Variable *iterator = static_cast<PSC::Variable*>(holder);
     if (iterator->type != PSC::DataType::INTEGER)
         throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
 
diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 74c8044..97161c5 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -158,16 +158,10 @@ PSC::DataHolder &SimpleVariableSource::resolve(PSC::Context &ctx) {
     PSC::DataHolder *cached = cache.get(ctx);
     if (cached != nullptr) return *cached;
 
-    PSC::Variable *var = ctx.getVariable(token.value);
-    if (var != nullptr) {
-        cache.set(var, ctx);
-        return *var;
-    }
-
-    PSC::Array *arr = ctx.getArray(token.value);
-    if (arr != nullptr) {
-        cache.set(arr, ctx);
-        return *arr;
+    PSC::DataHolder *holder = ctx.getDataHolder(token.value);
+    if (holder != nullptr) {
+        cache.set(holder, ctx);
+        return *holder;
     }
 
     throw PSC::NotDefinedError(token, ctx, "Identifier '" + token.value + "'");
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index ddcbc6a..6cee5a6 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -56,9 +56,7 @@ bool Context::sameShape(const Context &other) const {
 }
 
 Context::~Context() {
-    for (ResolverCache *c : cache) {
-        c->clear();
-    }
+    clearCache();
 }
 
 std::unique_ptr<Context> Context::createGlobalContext() {
@@ -131,6 +129,7 @@ const std::string &Context::getName() const {
 }
 
 void Context::addVariable(Variable *variable) {
+    clearCache();
     variables.emplace_back(variable);
 }
 
@@ -184,6 +183,7 @@ Function *Context::getFunction(const std::string &functionName) {
 }
 
 void Context::addArray(std::unique_ptr<Array> &&array) {
+    clearCache();
     arrays.emplace_back(std::move(array));
 }
 
@@ -198,6 +198,14 @@ Array *Context::getArray(const std::string &arrayName, bool global) {
     return getGlobalContext()->getArray(arrayName);
 }
 
+DataHolder *Context::getDataHolder(const std::string &name) {
+    if (Variable *var = getVariable(name, false)) return var;
+    if (Array *array = getArray(name, false)) return array;
+
+    if (parent == nullptr) return nullptr;
+    return getGlobalContext()->getDataHolder(name);
+}
+
 PSC::DataType Context::getType(const Token &token, bool global) {
     if (token.type == TokenType::DATA_TYPE) {
         if (token.value == "INTEGER") return PSC::DataType(PSC::DataType::INTEGER);
@@ -294,3 +302,10 @@ FileManager &Context::getFileManager() {
 void Context::addCache(ResolverCache *c) {
     cache.push_back(c);
 }
+
+void Context::clearCache() {
+    for (ResolverCache *c : cache) {
+        c->clear();
+    }
+    cache.clear();
+}
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 24288fd..4fad4dd 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,6 +27,8 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        void clearCache();
+
     public:
         const Token *switchToken = nullptr;
 
@@ -81,6 +83,9 @@ namespace PSC {
 
         Array *getArray(const std::string &arrayName, bool global = true);
 
+        // Variable or array, local ones hide global ones
+        DataHolder *getDataHolder(const std::string &name);
+
         PSC::DataType getType(const Token &token, bool global = true);
 
         bool isIdentifierType(const Token &identifier, bool global = true);
-- 
2.43.0


From 1e795e426a94b3217152edd5c133c60c86b4c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 17/31] fix: FOR, INPUT, READFILE and GETRECORD do not write to
 constants

---
 src/nodes/io/file.cpp  | 5 +++++
 src/nodes/io/io.cpp    | 3 +++
 src/nodes/loop/for.cpp | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index cc8f9e5..bc5b743 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -55,6 +55,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     PSC::Variable *var = static_cast<PSC::Variable*>(holder);
     if (var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
 
     var->assign(file->read());
 
@@ -187,6 +189,9 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
     if (type == PSC::DataType::POINTER)
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
+    if (!holder->isArray() && static_cast<PSC::Variable*>(holder)->isConstant)
+        throw PSC::ConstAssignError(token, ctx, holder->name);
+
     if (!file->getRecord(*holder, ctx))
         throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
 
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index a7b1708..99c461f 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -82,6 +82,9 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(var);
     }
 
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
+
     PSC::String inputStr;
     getLine(inputStr.value, "");
 
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 4d49b84..88cc8d7 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -26,6 +26,8 @@ std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
     PSC::Variable *iterator = static_cast<PSC::Variable*>(holder);
     if (iterator->type != PSC::DataType::INTEGER)
         throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
+    if (iterator->isConstant)
+        throw PSC::ConstAssignError(token, ctx, iterator->name);
 
 
     auto startRes = start.evaluate(ctx);
-- 
2.43.0


From bb56d791fe661559a9c39d8ccd7f571d020c595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:47 +0000
Subject: [PATCH 18/31] fix: INPUT into a CHAR rejects lines that are not a
 single character

---
 src/nodes/io/io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index 99c461f..73d793e 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -99,6 +99,8 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
             var->get<PSC::Boolean>() = (inputStr.value == "TRUE");
             break;
         case PSC::DataType::CHAR:
+            if (inputStr.value.size() != 1)
+                throw PSC::RuntimeError(token, ctx, "Expected a single character as input");
             var->get<PSC::Char>() = inputStr.value.front();
             break;
         case PSC::DataType::STRING:
-- 
2.43.0


From c9f0616d8f2693f081043a4f9390f17e71b6e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 19/31] fix: strings and characters with line breaks and
 records with several array fields survive random files

---
 src/psc/file.cpp            |  2 +-
 src/psc/types/character.cpp | 27 +++++++++++++++------------
 src/psc/types/userType.cpp  |  2 +-
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index f794751..97e060d 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -27,7 +27,7 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
                     std::getline(*ifile, line);
-                    if (line.starts_with('#') && records.size() > 1) {
+                    if (line.starts_with('#') && records.size() > 0) {
                         records[records.size()-1] += '\n';
                         records[records.size()-1] += line;
                         continue;
diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index e3f4c79..42142dd 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -51,9 +51,12 @@ bool Char::load(std::istream &in, Context&) {
     if (s != "CHAR") return false;
 
     in.ignore(1); // whitespace
-    value = in.get();
+    char c;
+    if (!in.get(c)) return false;
+    if (c == '\n' && in.peek() == '#') in.ignore(1);
 
-    return !in.fail();
+    value = c;
+    return true;
 }
 
 
@@ -124,20 +127,20 @@ bool String::load(std::istream &in, Context&) {
     in >> s;
     if (s != "STRING") return false;
 
-    in >> s;
+    size_t length;
+    in >> length;
     if (in.fail()) return false;
-    size_t length = std::stoul(s, nullptr);
-
-    char *buf = new char[length];
     in.ignore(1); // whitespace
-    in.read(buf, length);
-    value.clear();
-    value.reserve(length);
+
+    std::string loaded;
+    char prev = 0;
     for (size_t i = 0; i < length; i++) {
-        if (i > 0 && buf[i] == '#' && buf[i-1] == '\n') continue;
-        value += buf[i];
+        char c;
+        if (!in.get(c)) return false;
+        if (c != '#' || prev != '\n') loaded += c;
+        prev = c;
     }
-    delete[] buf;
 
+    value = std::move(loaded);
     return true;
 }
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 0cc58b6..03738c1 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -120,7 +120,7 @@ void Composite::dump(std::ostream &out) const {
     if (arrays.size() > 0) out << " ";
     for (size_t i = 0; i < arrays.size(); i++) {
         arrays[i]->dump(out);
-        if (i < vars.size() - 1) out << " ";
+        if (i < arrays.size() - 1) out << " ";
     }
 }
 
-- 
2.43.0


From 3c175fba8fa144ed5a9fa7c3ac7ccc8f723d3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 20/31] fix: a GETRECORD that fails leaves its target unchanged

---
 src/psc/file.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 97e060d..ac3d45d 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -100,7 +100,20 @@ bool File::getRecord(DataHolder &data, Context &ctx) {
     if (ptr == records.size()) return false;
     const std::string &line = records[ptr];
     std::istringstream ss(line);
-    return data.load(ss, ctx);
+
+    // Load into a copy so that a failure leaves the data as it was
+    if (data.isArray()) {
+        Array &array = static_cast<Array&>(data);
+        Array copy(array, ctx);
+        if (!copy.load(ss, ctx)) return false;
+        array.copyData(copy);
+    } else {
+        Variable &variable = static_cast<Variable&>(data);
+        Variable copy(variable, variable.parent);
+        if (!copy.load(ss, ctx)) return false;
+        variable.assign(copy.get<Value>());
+    }
+    return true;
 }
 
 void File::putRecord(DataHolder &data) {
-- 
2.43.0


From 1fff74781dfd422001b93efb7b5394550b462cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 21/31] fix: EOF is TRUE as soon as no unread line remains

---
 src/psc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index ac3d45d..3931c34 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -53,7 +53,7 @@ FileMode File::getMode() {
 
 bool File::eof() {
     if (mode != FileMode::READ) std::abort();
-    return ifile->eof();
+    return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
 void File::close() {
-- 
2.43.0


From f4b838a0be775bf3a8560840131f7648bfc86612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 22/31] fix: appending to a file without a final line break
 starts a new line

---
 src/psc/file.cpp | 12 ++++++++++++
 src/psc/file.h   |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 3931c34..7a4ebf9 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -6,6 +6,13 @@
 
 using namespace PSC;
 
+static bool endsInsideLine(const std::string &filename) {
+    std::ifstream file(filename, std::ios::binary | std::ios::ate);
+    if (!file.is_open() || file.tellg() <= 0) return false;
+    file.seekg(-1, std::ios::end);
+    return file.get() != '\n';
+}
+
 File::File(const String &name, FileMode mode) : mode(mode), name(name) {
     switch (mode) {
         case FileMode::READ:
@@ -19,6 +26,7 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
         case FileMode::APPEND:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
+            unfinishedLine = endsInsideLine(name.value);
             break;
         case FileMode::RANDOM:
             ifile = std::make_unique<std::ifstream>();
@@ -86,6 +94,10 @@ String File::read() {
 }
 
 void File::write(const String &data) {
+    if (unfinishedLine) {
+        *ofile << "\n";
+        unfinishedLine = false;
+    }
     *ofile << data.value << "\n";
 }
 
diff --git a/src/psc/file.h b/src/psc/file.h
index 517bd89..82d4877 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -21,6 +21,7 @@ namespace PSC {
         size_t ptr = 0;
         bool open = true;
         bool modified = false;
+        bool unfinishedLine = false;
 
     public:
         const String name;
-- 
2.43.0


From 5c9af99c3c74297bc2ce3ec0957101302d8a14e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 23/31] fix: report files that cannot be opened and writes that
 fail instead of ignoring them

---
 src/launch/repl.cpp    | 15 ++++++++--
 src/launch/runFile.cpp |  1 +
 src/nodes/io/file.cpp  | 11 +++++---
 src/psc/file.cpp       | 62 ++++++++++++++++++++++++++++++++++--------
 src/psc/file.h         | 20 ++++++++++----
 5 files changed, 86 insertions(+), 23 deletions(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index 6ebc747..f63281b 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -19,6 +19,17 @@ static const std::string multilineKeywords[] = {
     "TYPE"
 };
 
+static bool closeFiles(PSC::Context &ctx) {
+    try {
+        ctx.getFileManager().closeAll(ctx);
+    } catch (const PSC::Error &e) {
+        std::cout << "\n";
+        e.print();
+        return false;
+    }
+    return true;
+}
+
 bool startREPL() {
     std::cout << "PseudoEngine2 v" << PseudoEngine2_VERSION_MAJOR << '.' << PseudoEngine2_VERSION_MINOR << '.' << PseudoEngine2_VERSION_PATCH << " REPL\nEnter '?' for help, 'EXIT' to quit\n";
 
@@ -64,7 +75,7 @@ bool startREPL() {
                 std::string line = " ";
                 while (line.size() > 0) {
                     code += "\n";
-                    if (!getLine(line, ". ")) return true;
+                    if (!getLine(line, ". ")) return closeFiles(*globalCtx);
                     code += line;
                 }
                 break;
@@ -84,5 +95,5 @@ bool startREPL() {
             e.print();
         }
     }
-    return true;
+    return closeFiles(*globalCtx);
 }
diff --git a/src/launch/runFile.cpp b/src/launch/runFile.cpp
index ba56bd9..655dc0e 100644
--- a/src/launch/runFile.cpp
+++ b/src/launch/runFile.cpp
@@ -31,6 +31,7 @@ bool runFile() {
 
         auto globalCtx = PSC::Context::createGlobalContext();
         block->run(*globalCtx);
+        globalCtx->getFileManager().closeAll(*globalCtx);
     } catch (const PSC::Error &e) {
         std::cout << "\n";
         e.print();
diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index bc5b743..206520b 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -18,7 +18,7 @@ std::unique_ptr<NodeResult> OpenFileNode::evaluate(PSC::Context &ctx) {
     if (file != nullptr)
         throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is already open");
 
-    bool success = ctx.getFileManager().createFile(filename, mode);
+    bool success = ctx.getFileManager().createFile(token, filename, mode);
     if (!success)
         throw PSC::RuntimeError(token, ctx, "Failed to open file '" + filename.value + "'");
 
@@ -111,7 +111,8 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeOperationError(token, ctx, "Write");
     }
 
-    file->write(*data);
+    if (!file->write(*data))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
@@ -130,7 +131,8 @@ std::unique_ptr<NodeResult> CloseFileNode::evaluate(PSC::Context &ctx) {
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
 
-    ctx.getFileManager().closeFile(filename);
+    if (!ctx.getFileManager().closeFile(filename))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
@@ -222,7 +224,8 @@ std::unique_ptr<NodeResult> PutRecordNode::evaluate(PSC::Context &ctx) {
     if (type == PSC::DataType::POINTER)
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
-    file->putRecord(*holder);
+    if (!file->putRecord(*holder))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filenameStr.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 7a4ebf9..487e24e 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -1,5 +1,6 @@
 #include "pch.h"
 
+#include "psc/error.h"
 #include "psc/file.h"
 #include <filesystem>
 #include <sstream>
@@ -13,24 +14,29 @@ static bool endsInsideLine(const std::string &filename) {
     return file.get() != '\n';
 }
 
-File::File(const String &name, FileMode mode) : mode(mode), name(name) {
+File::File(const Token &token, const String &name, FileMode mode) : mode(mode), token(token), name(name) {
     switch (mode) {
         case FileMode::READ:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             break;
         case FileMode::WRITE:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value);
+            open = ofile->is_open();
             break;
         case FileMode::APPEND:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
+            open = ofile->is_open();
             unfinishedLine = endsInsideLine(name.value);
             break;
         case FileMode::RANDOM:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
+            if (!open) break;
             std::string line;
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
@@ -55,6 +61,10 @@ File::~File() {
     if (open) close();
 }
 
+bool File::isOpen() const {
+    return open;
+}
+
 FileMode File::getMode() {
     return mode;
 }
@@ -64,7 +74,8 @@ bool File::eof() {
     return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
-void File::close() {
+bool File::close() {
+    bool success = true;
     switch (mode) {
         case FileMode::READ:
             ifile->close();
@@ -72,6 +83,7 @@ void File::close() {
         case FileMode::WRITE:
         case FileMode::APPEND:
             ofile->close();
+            success = !ofile->fail();
             break;
         case FileMode::RANDOM:
             if (modified) {
@@ -81,10 +93,12 @@ void File::close() {
                     *ofile << line << "\n";
                 }
                 ofile->close();
+                success = !ofile->fail();
             }
             break;
     }
     open = false;
+    return success;
 }
 
 String File::read() {
@@ -93,12 +107,16 @@ String File::read() {
     return line;
 }
 
-void File::write(const String &data) {
+bool File::write(const String &data) {
     if (unfinishedLine) {
         *ofile << "\n";
         unfinishedLine = false;
     }
-    *ofile << data.value << "\n";
+    *ofile << data.value << "\n" << std::flush;
+
+    bool success = !ofile->fail();
+    ofile->clear();
+    return success;
 }
 
 bool File::seek(const Integer &address) {
@@ -128,7 +146,10 @@ bool File::getRecord(DataHolder &data, Context &ctx) {
     return true;
 }
 
-void File::putRecord(DataHolder &data) {
+bool File::putRecord(DataHolder &data) {
+    // Records are written when the file is closed
+    if (!modified && !std::ofstream(name.value, std::ios::in | std::ios::out).is_open()) return false;
+
     std::ostringstream ss;
     data.dump(ss);
     if (ptr == records.size()) {
@@ -137,11 +158,17 @@ void File::putRecord(DataHolder &data) {
         records[ptr] = ss.str();
     }
     modified = true;
+    return true;
 }
 
-bool FileManager::createFile(const String &name, FileMode mode) {
+bool FileManager::createFile(const Token &token, const String &name, FileMode mode) {
     namespace fs = std::filesystem;
-    if (!fs::exists(fs::path(name.value))) {
+    if (name.value.find('\0') != std::string::npos) return false;
+
+    std::error_code error;
+    fs::path path(name.value);
+    if (fs::is_directory(path, error)) return false;
+    if (!fs::exists(path, error)) {
         if (mode == FileMode::RANDOM) {
             std::ofstream f(name.value, std::ios::out);
             f.close();
@@ -150,7 +177,10 @@ bool FileManager::createFile(const String &name, FileMode mode) {
             return false;
         }
     }
-    files.emplace_back(std::make_unique<File>(name, mode));
+    auto file = std::make_unique<File>(token, name, mode);
+    if (!file->isOpen()) return false;
+
+    files.emplace_back(std::move(file));
     return true;
 }
 
@@ -161,13 +191,23 @@ File *FileManager::getFile(const String &name) {
     return nullptr;
 }
 
-void FileManager::closeFile(const String &name) {
+bool FileManager::closeFile(const String &name) {
     for (std::size_t i = 0; i < files.size(); i++) {
         auto &file = files[i];
         if (file->name.value == name.value) {
-            file->close();
+            bool success = file->close();
             files.erase(files.begin() + i);
-            return;
+            return success;
         }
     }
+    return true;
+}
+
+void FileManager::closeAll(Context &ctx) {
+    while (files.size() > 0) {
+        auto file = std::move(files.front());
+        files.erase(files.begin());
+        if (!file->close())
+            throw RuntimeError(file->token, ctx, "Failed to write to file '" + file->name.value + "'");
+    }
 }
diff --git a/src/psc/file.h b/src/psc/file.h
index 82d4877..8adb232 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -4,6 +4,7 @@
 #include <iostream>
 #include <fstream>
 #include <memory>
+#include "lexer/tokens.h"
 #include "psc/array.h"
 #include "psc/types/types.h"
 
@@ -24,27 +25,31 @@ namespace PSC {
         bool unfinishedLine = false;
 
     public:
+        const Token &token;
         const String name;
         
-        File(const String &name, FileMode mode);
+        File(const Token &token, const String &name, FileMode mode);
 
         ~File();
 
+        bool isOpen() const;
+
         FileMode getMode();
 
         bool eof();
 
-        void close();
+        // Returns false if some of the data could not be written
+        bool close();
 
         String read();
 
-        void write(const String &data);
+        bool write(const String &data);
 
         bool seek(const Integer &address);
 
         bool getRecord(DataHolder &data, Context &ctx);
 
-        void putRecord(DataHolder &data);
+        bool putRecord(DataHolder &data);
     };
 
     class FileManager {
@@ -52,10 +57,13 @@ namespace PSC {
         std::vector<std::unique_ptr<File>> files;
     
     public:
-        bool createFile(const String &name, FileMode mode);
+        bool createFile(const Token &token, const String &name, FileMode mode);
 
         File *getFile(const String &name);
 
-        void closeFile(const String &name);
+        bool closeFile(const String &name);
+
+        // Closes the files that are still open, throws a RuntimeError if one cannot be written
+        void closeAll(Context &ctx);
     };
 }
-- 
2.43.0


From 391c3bc03001696781fb08c0f90e91bf7a8f4d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 24/31] fix: the REPL recognises a multi-line construct by its
 whole first word

---
 src/launch/repl.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index f63281b..d3a94a6 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -1,5 +1,6 @@
 #include "pch.h"
 
+#include <cctype>
 #include <string>
 #include "launch/run.h"
 #include "PsConfig.h"
@@ -19,6 +20,15 @@ static const std::string multilineKeywords[] = {
     "TYPE"
 };
 
+static std::string firstWord(const std::string &code) {
+    size_t start = code.find_first_not_of(" \t");
+    if (start == std::string::npos) return "";
+
+    size_t end = start;
+    while (end < code.size() && (std::isalnum((unsigned char) code[end]) || code[end] == '_')) end++;
+    return code.substr(start, end - start);
+}
+
 static bool closeFiles(PSC::Context &ctx) {
     try {
         ctx.getFileManager().closeAll(ctx);
@@ -48,7 +58,7 @@ bool startREPL() {
             continue;
         } else if (code == "EXIT") {
             break;
-        } else if (code.starts_with("RUNFILE")) {
+        } else if (code == "RUNFILE" || code.starts_with("RUNFILE ") || code.starts_with("RUNFILE\t")) {
             if (size < 9) {
                 std::cerr << "Expected filename" << std::endl;
                 continue;
@@ -70,8 +80,8 @@ bool startREPL() {
         }
 
         for (const std::string &keyword : multilineKeywords) {
-            if (code.starts_with(keyword)) {
-                if (keyword == "TYPE" && code.find("=") != std::string::npos) break;
+            if (firstWord(code) == keyword) {
+                if (keyword == "TYPE" && code.substr(0, code.find("//")).find("=") != std::string::npos) break;
                 std::string line = " ";
                 while (line.size() > 0) {
                     code += "\n";
-- 
2.43.0


From b473eeda30098be5a95747d82d867fcf872513a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:58 +0000
Subject: [PATCH 25/31] fix: an error in the fields of a record type is
 reported with a traceback instead of crashing

---
 src/nodes/variable/array.cpp    | 2 ++
 src/nodes/variable/variable.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 8a6cce5..10aad25 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -45,7 +45,9 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
+        ctx.switchToken = &token;
         array->init(ctx);
+        ctx.switchToken = nullptr;
         ctx.addArray(std::move(array));
     }
 
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 772d3fe..ce65eb2 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -21,7 +21,9 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         if (dataType == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
 
+        ctx.switchToken = &token;
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
+        ctx.switchToken = nullptr;
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
-- 
2.43.0


From 6233c2d29aa4bd252f12cc855b6833f03d04a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 26/31] fix: BYREF arguments are resolved once and errors
 during binding do not show a call frame that was never entered

---
 src/nodes/functions/function.cpp  | 30 ++++++++++++++++++------------
 src/nodes/functions/procedure.cpp | 29 ++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 0ce3289..57c7aeb 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -62,20 +62,32 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
 
     std::vector<std::unique_ptr<NodeResult>> argResults;
     std::vector<PSC::DataType> argTypes;
+    std::vector<PSC::Variable*> argVariables(args.size(), nullptr); // for passing by reference
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    size_t nArgs = function->parameters.size();
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
+        AccessNode *accsNode = nullptr;
+        if (i < nArgs && function->parameters[i].byRef) accsNode = dynamic_cast<AccessNode*>(args[i]);
+
+        if (accsNode == nullptr) {
+            argResults.push_back(args[i]->evaluate(ctx));
+        } else {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            argVariables[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(std::make_unique<NodeResult>(nullptr, argVariables[i]->type));
+        }
         argTypes.push_back(argResults[i]->type);
     }
 
-    size_t nArgs = function->parameters.size();
     if (args.size() != nArgs)
         throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
 
     auto functionCtx = std::make_unique<PSC::Context>(&ctx, functionName, true, function->returnType);
-    ctx.switchToken = &token;
 
     for (size_t i = 0; i < args.size(); i++) {
         auto &argRes = argResults[i];
@@ -88,17 +100,10 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode) {
+            if (argVariables[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables can be used as arguements when passing by reference");
-            }
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = argVariables[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get(), argRes->data.get());
         }
@@ -106,6 +111,7 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
         functionCtx->addVariable(var);
     }
 
+    ctx.switchToken = &token;
     try {
         function->run(*functionCtx);
     } catch (ReturnErrSignal&) {}
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index a817960..f6c0da5 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -56,20 +56,32 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
 
     std::vector<std::unique_ptr<NodeResult>> argResults;
     std::vector<PSC::DataType> argTypes;
+    std::vector<PSC::Variable*> argVariables(args.size(), nullptr); // for passing by reference
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    size_t nArgs = procedure->parameters.size();
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
+        AccessNode *accsNode = nullptr;
+        if (i < nArgs && procedure->parameters[i].byRef) accsNode = dynamic_cast<AccessNode*>(args[i]);
+
+        if (accsNode == nullptr) {
+            argResults.push_back(args[i]->evaluate(ctx));
+        } else {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            argVariables[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(std::make_unique<NodeResult>(nullptr, argVariables[i]->type));
+        }
         argTypes.push_back(argResults[i]->type);
     }
 
-    size_t nArgs = procedure->parameters.size();
     if (args.size() != nArgs)
         throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
     auto procedureCtx = std::make_unique<PSC::Context>(&ctx, procedureName);
-    ctx.switchToken = &token;
 
     for (size_t i = 0; i < args.size(); i++) {
         auto &argRes = argResults[i];
@@ -81,16 +93,10 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode)
+            if (argVariables[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables and array elements can be used as arguements when passing by reference");
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = argVariables[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get(), argRes->data.get());
         }
@@ -98,6 +104,7 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
         procedureCtx->addVariable(var);
     }
 
+    ctx.switchToken = &token;
     procedure->run(*procedureCtx);
     ctx.switchToken = nullptr;
 
-- 
2.43.0


From 77903b5a00ad5fec6244af64c542b540d5bbd09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 27/31] fix: a pointer to a finished activation is detected
 even if its memory is reused

---
 src/nodes/variable/resolver.cpp | 11 +++--------
 src/psc/scope/block.cpp         | 17 +++++------------
 src/psc/scope/context.h         |  5 +++++
 src/psc/types/types.h           |  5 +++--
 src/psc/types/userType.cpp      | 15 ++++++++++-----
 5 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 97161c5..e290f3c 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -51,18 +51,13 @@ PSC::DataHolder &PointerDereferencer::resolve(PSC::Context &ctx) {
     }
 
     PSC::Pointer &ptr = ptrVar->get<PSC::Pointer>();
-    const PSC::Context *ptrCtx = ptr.getCtx();
-    PSC::Context *tempCtx = &ctx;
-    while (tempCtx != ptrCtx) {
-        tempCtx = tempCtx->getParent();
-        if (tempCtx == nullptr)
-            throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
-    }
-
     PSC::Variable *ptrRefVar = ptr.getValue();
     if (ptrRefVar == nullptr)
         throw PSC::RuntimeError(token, ctx, "Attempt to access uninitalized pointer");
 
+    if (!ptr.isAlive(ctx))
+        throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
+
     return *ptrRefVar;
 }
 
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index dc7694a..a78059b 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -51,19 +51,12 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
 
-            const PSC::Context *ptrCtx = resPtr.getCtx();
-            PSC::Context *tempCtx = &ctx;
-            bool valid = true;
-            while (valid && tempCtx != ptrCtx) {
-                tempCtx = tempCtx->getParent();
-                if (tempCtx == nullptr) valid = false;
-            }
-
+            PSC::Variable *ptrValue = resPtr.getValue();
             std::cout << resPtr.definition.name << ": ";
-            if (valid) {
-                PSC::Variable *ptrValue = resPtr.getValue();
-                const std::string &valueStr = ptrValue == nullptr ? "null" : ptrValue->name;
-                std::cout << valueStr;
+            if (ptrValue == nullptr) {
+                std::cout << "null";
+            } else if (resPtr.isAlive(ctx)) {
+                std::cout << ptrValue->name;
             } else {
                 std::cout << "{DELETED}";
             }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 4fad4dd..0a4eda8 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,11 +27,16 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        inline static unsigned long lastId = 0;
+
         void clearCache();
 
     public:
         const Token *switchToken = nullptr;
 
+        // Never reused, unlike addresses
+        const unsigned long id = ++lastId;
+
         const bool isFunctionCtx, isCompositeCtx;
         std::unique_ptr<NodeResult> returnValue;
         const PSC::DataType returnType;
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 98cb095..2edc328 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -293,7 +293,7 @@ namespace PSC {
     class Pointer : public Custom {
     private:
         Variable *ptr = nullptr;
-        Context *varCtx = nullptr;
+        unsigned long varCtxId = 0; // Id of the activation that owns the target
 
     public:
         const PointerTypeDefinition &definition;
@@ -308,7 +308,8 @@ namespace PSC {
 
         Variable *getValue() const;
 
-        const Context *getCtx() const;
+        // Whether the activation that owns the target has not ended yet
+        bool isAlive(const Context &ctx) const;
 
         virtual void dump(std::ostream&) const override;
 
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 03738c1..a94f514 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -41,29 +41,34 @@ Pointer::Pointer(const PointerTypeDefinition &definition)
     : definition(definition) {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definition(other.definition)
+    : ptr(other.ptr), varCtxId(other.varCtxId), definition(other.definition)
 {}
 
 void Pointer::setValue(Variable *value) {
     ptr = value;
-    varCtx = value->parent;
+    const Context *varCtx = value->parent;
     while (varCtx->isCompositeCtx) {
         varCtx = varCtx->getParent();
     }
+    varCtxId = varCtx->id;
 }
 
 void Pointer::operator=(const Pointer &other) {
     if (&definition != &other.definition) std::abort();
     ptr = other.ptr;
-    varCtx = other.varCtx;
+    varCtxId = other.varCtxId;
 }
 
 Variable *Pointer::getValue() const {
     return ptr;
 }
 
-const Context *Pointer::getCtx() const {
-    return varCtx;
+bool Pointer::isAlive(const Context &ctx) const {
+    const Context *activation = &ctx;
+    while (activation != nullptr && activation->id != varCtxId) {
+        activation = activation->getParent();
+    }
+    return activation != nullptr;
 }
 
 void Pointer::dump(std::ostream&) const {}
-- 
2.43.0


From a1b9a68e9f75bbf2e67e3f8970458a227f04db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 28/31] fix: field types of a record are looked up where the
 type is defined; a record type cannot contain itself

---
 src/nodes/variable/composite.cpp   |  2 +-
 src/psc/scope/context.cpp          | 28 +++++++++++++++++++---------
 src/psc/scope/context.h            |  6 +++++-
 src/psc/types/type_definitions.cpp |  4 ++--
 src/psc/types/type_definitions.h   |  4 +++-
 src/psc/types/userType.cpp         |  8 +++++++-
 6 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/nodes/variable/composite.cpp b/src/nodes/variable/composite.cpp
index 50484da..6c005cc 100644
--- a/src/nodes/variable/composite.cpp
+++ b/src/nodes/variable/composite.cpp
@@ -11,7 +11,7 @@ std::unique_ptr<NodeResult> CompositeDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false))
         throw PSC::RedefinitionError(token, ctx, name.value);
     
-    PSC::CompositeTypeDefinition definition(name.value, initBlock);
+    PSC::CompositeTypeDefinition definition(name.value, initBlock, ctx);
     ctx.createCompositeDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6cee5a6..2f81321 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -14,8 +14,13 @@ Context::Context(Context *parent, const std::string &name, bool isFunctionCtx, P
     : parent(parent), name(name), isFunctionCtx(isFunctionCtx), isCompositeCtx(false), returnType(returnType)
 {}
 
-Context::Context(Context *parent, const std::string &name, bool isCompositeCtx)
-    : parent(parent), name(name), isFunctionCtx(false), isCompositeCtx(isCompositeCtx), returnType(PSC::DataType::NONE)
+Context::Context(Context *parent, const CompositeTypeDefinition &definition)
+    : parent(parent),
+    name(definition.name),
+    isFunctionCtx(false),
+    isCompositeCtx(true),
+    compositeDefinition(&definition),
+    returnType(PSC::DataType::NONE)
 {}
 
 Context::Context(const Context &other, Context *parent)
@@ -23,6 +28,7 @@ Context::Context(const Context &other, Context *parent)
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
     isCompositeCtx(other.isCompositeCtx),
+    compositeDefinition(other.compositeDefinition),
     returnType(other.returnType)
 {
     variables.reserve(other.variables.size());
@@ -124,6 +130,10 @@ Context *Context::getGlobalContext() {
     return ctx;
 }
 
+Context *Context::getOuterScope() {
+    return isCompositeCtx ? &compositeDefinition->scope : getGlobalContext();
+}
+
 const std::string &Context::getName() const {
     return name;
 }
@@ -139,7 +149,7 @@ Variable *Context::getVariable(const std::string &varName, bool global) {
     }
 
     if (!global || parent == nullptr) return nullptr;
-    return getGlobalContext()->getVariable(varName);
+    return getOuterScope()->getVariable(varName);
 }
 
 const std::vector<std::unique_ptr<Variable>> &Context::getVariables() const {
@@ -195,7 +205,7 @@ Array *Context::getArray(const std::string &arrayName, bool global) {
     }
 
     if (!global || parent == nullptr) return nullptr;
-    return getGlobalContext()->getArray(arrayName);
+    return getOuterScope()->getArray(arrayName);
 }
 
 DataHolder *Context::getDataHolder(const std::string &name) {
@@ -203,7 +213,7 @@ DataHolder *Context::getDataHolder(const std::string &name) {
     if (Array *array = getArray(name, false)) return array;
 
     if (parent == nullptr) return nullptr;
-    return getGlobalContext()->getDataHolder(name);
+    return getOuterScope()->getDataHolder(name);
 }
 
 PSC::DataType Context::getType(const Token &token, bool global) {
@@ -255,7 +265,7 @@ Enum *Context::getEnumElement(const std::string &value, bool global) {
             }
         }
     }
-    if (global && parent != nullptr) return getGlobalContext()->getEnumElement(value);
+    if (global && parent != nullptr) return getOuterScope()->getEnumElement(value);
     return nullptr;
 }
 
@@ -275,7 +285,7 @@ const EnumTypeDefinition *Context::getEnumDefinition(const std::string &name, bo
     for (const auto &e : enums) {
         if (e->name == name) return e.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getEnumDefinition(name);
+    if (global && parent != nullptr) return getOuterScope()->getEnumDefinition(name);
     return nullptr;
 }
 
@@ -283,7 +293,7 @@ const PointerTypeDefinition *Context::getPointerDefinition(const std::string &na
     for (const auto &p : pointers) {
         if (p->name == name) return p.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getPointerDefinition(name);
+    if (global && parent != nullptr) return getOuterScope()->getPointerDefinition(name);
     return nullptr;
 }
 
@@ -291,7 +301,7 @@ const CompositeTypeDefinition *Context::getCompositeDefinition(const std::string
     for (const auto &c : composites) {
         if (c->name == name) return c.get();
     }
-    if (global && parent != nullptr) return getGlobalContext()->getCompositeDefinition(name);
+    if (global && parent != nullptr) return getOuterScope()->getCompositeDefinition(name);
     return nullptr;
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 0a4eda8..5986a5f 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,6 +27,9 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        // Scope where names that are not local are looked up
+        Context *getOuterScope();
+
         inline static unsigned long lastId = 0;
 
         void clearCache();
@@ -38,6 +41,7 @@ namespace PSC {
         const unsigned long id = ++lastId;
 
         const bool isFunctionCtx, isCompositeCtx;
+        const CompositeTypeDefinition *const compositeDefinition = nullptr;
         std::unique_ptr<NodeResult> returnValue;
         const PSC::DataType returnType;
 
@@ -47,7 +51,7 @@ namespace PSC {
         Context(Context *parent, const std::string &name, bool isFunctionCtx, PSC::DataType returnType);
 
         // Composites
-        Context(Context *parent, const std::string &name, bool isCompositeCtx);
+        Context(Context *parent, const CompositeTypeDefinition &definition);
 
         // For copying composites
         Context(const Context &other, Context *parent);
diff --git a/src/psc/types/type_definitions.cpp b/src/psc/types/type_definitions.cpp
index 97fa632..ade3714 100644
--- a/src/psc/types/type_definitions.cpp
+++ b/src/psc/types/type_definitions.cpp
@@ -14,5 +14,5 @@ EnumTypeDefinition::EnumTypeDefinition(const std::string &name, std::vector<std:
 PointerTypeDefinition::PointerTypeDefinition(const std::string &name, DataType type)
     : AbstractTypeDefinition(name), type(type) {}
 
-CompositeTypeDefinition::CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock)
-    : AbstractTypeDefinition(name), initBlock(initBlock) {}
+CompositeTypeDefinition::CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock, PSC::Context &scope)
+    : AbstractTypeDefinition(name), initBlock(initBlock), scope(scope) {}
diff --git a/src/psc/types/type_definitions.h b/src/psc/types/type_definitions.h
index f203e43..1c5d210 100644
--- a/src/psc/types/type_definitions.h
+++ b/src/psc/types/type_definitions.h
@@ -6,6 +6,7 @@
 
 namespace PSC {
     class Block;
+    class Context;
 
     struct AbstractTypeDefinition {
         const std::string name;
@@ -27,7 +28,8 @@ namespace PSC {
 
     struct CompositeTypeDefinition : AbstractTypeDefinition {
         PSC::Block &initBlock;
+        PSC::Context &scope; // Where the type is defined
 
-        CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock);
+        CompositeTypeDefinition(const std::string &name, PSC::Block &initBlock, PSC::Context &scope);
     };
 }
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index a94f514..062150a 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -1,5 +1,6 @@
 #include "pch.h"
 
+#include "psc/error.h"
 #include "psc/types/type_definitions.h"
 #include "psc/types/types.h"
 #include "psc/scope/block.h"
@@ -80,8 +81,13 @@ bool Pointer::load(std::istream&, Context&) {
 
 Composite::Composite(const CompositeTypeDefinition &definition, Context &parent)
     : definition(definition),
-    ctx(std::make_unique<Context>(&parent, definition.name, true))
+    ctx(std::make_unique<Context>(&parent, definition))
 {
+    for (const Context *outer = &parent; outer->isCompositeCtx; outer = outer->getParent()) {
+        if (outer->compositeDefinition == &definition)
+            throw RuntimeError(*parent.switchToken, parent, "Type '" + definition.name + "' cannot contain itself");
+    }
+
     definition.initBlock.run(*ctx);
 }
 
-- 
2.43.0


From 152314c0fe73734cf5b7a126d2075bd5321682fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 29/31] fix: text with an embedded NUL character is not a
 numeral

---
 src/psc/types/character.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index 42142dd..66b148c 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -81,7 +81,7 @@ std::unique_ptr<Integer> String::toInteger() const {
     char *end;
 
     int_t x = std::strtol(cStr, &end, 10);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || value.empty()) {
         x = 0;
     }
 
@@ -93,7 +93,7 @@ std::unique_ptr<Real> String::toReal() const {
     char *end;
 
     real_t x = std::strtod(cStr, &end);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || value.empty()) {
         x = 0.0;
     }
 
-- 
2.43.0


From a6011098a58977ccb7c6253588ee4f48d1fc0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 30/31] fix: a missing end of a construct or string is reported
 at a position inside the source

---
 src/lexer/lexer.cpp       | 7 ++++++-
 src/lexer/symbolLexer.cpp | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index fdcf968..6f11552 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -141,7 +141,12 @@ const std::vector<Token*> Lexer::makeTokens() {
         }
         advance();
     }
-    tokens.emplace_back(new Token(TokenType::EXPRESSION_END, line, column));
+
+    // The end of the source is after the last character of its last line
+    size_t end = expr->find_last_not_of(" \t\n") + 1;
+    int endLine = 1 + std::count(expr->begin(), expr->begin() + end, '\n');
+    int endColumn = end - (expr->substr(0, end).rfind('\n') + 1) + 1;
+    tokens.emplace_back(new Token(TokenType::EXPRESSION_END, endLine, endColumn));
 
     currentTokens.reserve(tokens.size() - currentTokensIdx + 1);
     for (size_t i = currentTokensIdx; i < tokens.size(); i++) {
diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index dcea531..7fe982f 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -240,6 +240,7 @@ void Lexer::makeChar() {
 }
 
 void Lexer::makeString() {
+    int startLine = line;
     int startColumn = column;
     advance();
 
@@ -257,7 +258,7 @@ void Lexer::makeString() {
     }
 
     if (idx >= expr->size() || currentChar != '"')
-        throw PSC::ExpectedQuotesError(line, column, true);
+        throw PSC::ExpectedQuotesError(startLine, startColumn, true);
     advance();
 
     tokens.emplace_back(new Token(TokenType::STRING, line, startColumn, str));
-- 
2.43.0


From e0a622ff9e71c45d98977fa69b587d070f13ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 31/31] fix: dates with years before 1 compare in chronological
 order

---
 src/psc/types/date.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index 0974785..acc5a88 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -22,9 +22,10 @@ Date Date::fromComponents(int_t day, int_t month, int_t year) {
 }
 
 std::unique_ptr<Integer> Date::toInteger() const {
-    unsigned int day = static_cast<unsigned int>(date.day());
-    unsigned int month = static_cast<unsigned int>(date.month());
-    int year = static_cast<int>(date.year());
+    // Signed, since the year may be negative
+    int_t day = static_cast<unsigned int>(date.day());
+    int_t month = static_cast<unsigned int>(date.month());
+    int_t year = static_cast<int>(date.year());
 
     int_t cmp = year * 372 + month * 31 + day;
     return std::make_unique<Integer>(cmp);
-- 
2.43.0

