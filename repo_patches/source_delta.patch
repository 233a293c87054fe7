From 901a39a29132937c88529370defdce2e52176fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 01/50] fix: don't crash when QT_NAMESPACE is defined to a
 non-identifier token

---
 src/AccessSpecifierManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index 7fabf20..d61ca30 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -78,7 +78,7 @@ public:
         IdentifierInfo *ii = MacroNameTok.getIdentifierInfo();
         if (ii && ii->getName() == "QT_NAMESPACE") {
             const auto tokens = MD->getDefinition().getMacroInfo()->tokens();
-            if (tokens.size() == 1) {
+            if (tokens.size() == 1 && tokens.front().getIdentifierInfo()) {
                 m_qtNamespace = tokens.front().getIdentifierInfo()->getName();
             }
         }
-- 
2.43.0


From cb57229c47b4f208e85c969a562f7dd6867ee878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 02/50] fix: don't crash on a 4-argument connect() that isn't a
 member call

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 82c73f4..7e2ed37 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -675,7 +675,7 @@ std::vector<CXXMethodDecl *> Utils::methodsFromString(const CXXRecordDecl *recor
 const CXXRecordDecl *Utils::recordForMemberCall(CXXMemberCallExpr *call, std::string &implicitCallee)
 {
     implicitCallee.clear();
-    Expr *implicitArgument = call->getImplicitObjectArgument();
+    Expr *implicitArgument = call ? call->getImplicitObjectArgument() : nullptr;
     if (!implicitArgument) {
         return nullptr;
     }
-- 
2.43.0


From c734bcdb7e6adb034102214696b978800388cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 03/50] fix: strict-iterators: don't crash on calls through
 pointer to member and on casts without parent

---
 src/checks/level0/strict-iterators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/strict-iterators.cpp b/src/checks/level0/strict-iterators.cpp
index f4d57bd..3c6255f 100644
--- a/src/checks/level0/strict-iterators.cpp
+++ b/src/checks/level0/strict-iterators.cpp
@@ -97,7 +97,7 @@ bool StrictIterators::handleImplicitCast(ImplicitCastExpr *implicitCast)
     if (implicitCast->getCastKind() == CK_ConstructorConversion) {
         if (auto *memberCall = dyn_cast_or_null<CXXMemberCallExpr>(m_context->parentMap->getParent(implicitCast))) {
             auto memberFunctionDecl = memberCall->getMethodDecl();
-            if (auto *parentClass = memberFunctionDecl->getParent()) {
+            if (auto *parentClass = memberFunctionDecl ? memberFunctionDecl->getParent() : nullptr) {
                 static const std::vector<std::string> allow = {
                     "QMap<>::insert",
                     "QMap<>::erase",
@@ -139,7 +139,7 @@ bool StrictIterators::handleImplicitCast(ImplicitCastExpr *implicitCast)
     }
 
     auto *p = m_context->parentMap->getParent(implicitCast);
-    if (isa<CXXOperatorCallExpr>(p)) {
+    if (isa_and_nonnull<CXXOperatorCallExpr>(p)) {
         return false;
     }
 
-- 
2.43.0


From 06be7435481aa15977d5be03e5f663f7b497bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 04/50] fix: foreach: don't crash when the member call is made
 on a leaf expression

---
 src/checks/level1/foreach.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/foreach.cpp b/src/checks/level1/foreach.cpp
index 07ff272..29a8f64 100644
--- a/src/checks/level1/foreach.cpp
+++ b/src/checks/level1/foreach.cpp
@@ -185,7 +185,7 @@ bool Foreach::containsDetachments(Stmt *stm, clang::ValueDecl *containerValueDec
                             auto *refExpr = dyn_cast<DeclRefExpr>(expr);
                             if (!refExpr) {
                                 auto *s = clazy::getFirstChildAtDepth(expr, 1);
-                                refExpr = dyn_cast<DeclRefExpr>(s);
+                                refExpr = dyn_cast_or_null<DeclRefExpr>(s);
                                 if (refExpr) {
                                     if (refExpr->getDecl()
                                         == containerValueDecl) { // Finally, check if this non-const member call is on the same container we're iterating
-- 
2.43.0


From 0b2d658c6e9f3884e8a23cc14ca1c3c18b314ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 05/50] fix: modernize-overloaded-connects: don't crash when
 the PMF comes from an indirect call

---
 src/checks/level1/modernize-overloaded-connects.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/modernize-overloaded-connects.cpp b/src/checks/level1/modernize-overloaded-connects.cpp
index cc9ad10..fe87528 100644
--- a/src/checks/level1/modernize-overloaded-connects.cpp
+++ b/src/checks/level1/modernize-overloaded-connects.cpp
@@ -73,7 +73,7 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
         }
     }
     if (auto callExpr = dyn_cast<CallExpr>(argToCheck)) {
-        if (auto calleeDecl = dyn_cast<CXXMethodDecl>(callExpr->getDirectCallee())) {
+        if (auto calleeDecl = dyn_cast_or_null<CXXMethodDecl>(callExpr->getDirectCallee())) {
             if (calleeDecl->getNameAsString() == "of" && calleeDecl->getParent()->getNameAsString() == "QNonConstOverload") {
                 if (isMethodOverloaded) {
                     std::vector<FixItHint> fixits{
-- 
2.43.0


From 5e9e62ef0356ecdb20e56a2b561f35be613e0f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 06/50] fix: readlock-detaching: don't crash on calls through
 pointer to member and on locks outside any block

---
 src/checks/level1/readlock-detaching.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 59359b7..c982761 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -91,6 +91,10 @@ public:
     }
     bool VisitCXXMemberCallExpr(CXXMemberCallExpr const *call)
     {
+        if (!call->getMethodDecl()) { // A call through a pointer to member
+            return true;
+        }
+
         const auto recordName = call->getRecordDecl()->getNameAsString();
         // We only care about members for now
         const bool isLocker = recordName == "QReadLocker" || recordName == "QReadWriteLock" || recordName == "QBasicReadWriteLock";
@@ -155,6 +159,9 @@ public:
 
         if (const auto lockCall = result.Nodes.getNodeAs<CXXMemberCallExpr>("qreadwritelockCall")) {
             const auto surroundingStmt = getSorroundingCompondStmt(*lockCall);
+            if (!surroundingStmt) {
+                return;
+            }
             // The end location for sure needs to be adjusted within the visitor. We just assume it is going to be in the same block the lock was locked
             MemberCallVisitor visitor(result.Context, m_check, SourceRange(lockCall->getBeginLoc(), surroundingStmt->getEndLoc()));
             visitor.TraverseStmt(const_cast<CompoundStmt *>(surroundingStmt));
-- 
2.43.0


From 7546a403d89f9229c519c83d5e0b39355dd286e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 07/50] fix: skipped-base-method: don't crash on calls through
 pointer to member

---
 src/checks/level1/skipped-base-method.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checks/level1/skipped-base-method.cpp b/src/checks/level1/skipped-base-method.cpp
index 532f881..7e5fdee 100644
--- a/src/checks/level1/skipped-base-method.cpp
+++ b/src/checks/level1/skipped-base-method.cpp
@@ -28,6 +28,10 @@ void SkippedBaseMethod::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
+    if (!memberCall->getMethodDecl()) { // A call through a pointer to member
+        return;
+    }
+
     auto *expr = memberCall->getImplicitObjectArgument();
     auto *thisExpr = clazy::unpeal<CXXThisExpr>(expr, clazy::IgnoreImplicitCasts);
     if (!thisExpr) {
-- 
2.43.0


From 5ecf0116e29123edcf986ba577b15aca3b05105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 08/50] fix: copyable-polymorphic: don't crash on dependent
 base classes

---
 src/checks/level2/copyable-polymorphic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 9ade947..de4e901 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -44,7 +44,7 @@ static bool hasPublicCopyInAncestors(const CXXRecordDecl *record)
     for (auto base : record->bases()) {
         if (const Type *t = base.getType().getTypePtrOrNull()) {
             const CXXRecordDecl *baseRecord = t->getAsCXXRecordDecl();
-            if (hasPublicCopy(baseRecord)) {
+            if (baseRecord && hasPublicCopy(baseRecord)) {
                 return true;
             }
             if (hasPublicCopyInAncestors(t->getAsCXXRecordDecl())) {
-- 
2.43.0


From 31116b097b5755661be3ef37d99a8bba9384b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 09/50] fix: ctor-missing-parent-argument: don't crash on
 QObject itself

---
 src/checks/level2/ctor-missing-parent-argument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checks/level2/ctor-missing-parent-argument.cpp b/src/checks/level2/ctor-missing-parent-argument.cpp
index a7f8781..27ca87e 100644
--- a/src/checks/level2/ctor-missing-parent-argument.cpp
+++ b/src/checks/level2/ctor-missing-parent-argument.cpp
@@ -63,6 +63,10 @@ void CtorMissingParentArgument::VisitDecl(Decl *decl)
 
     if (numCtors > 0 && !hasQObjectParam) {
         clang::CXXRecordDecl *baseClass = clazy::getQObjectBaseClass(record, m_context->qtNamespace());
+        if (!baseClass) { // It's QObject itself
+            return;
+        }
+
         const bool baseHasQObjectParam = clazy::recordHasCtorWithParam(baseClass, parentType, /*by-ref*/ ok, /*by-ref*/ numCtors);
         if (ok && !baseHasQObjectParam && sm().isInSystemHeader(baseClass->getBeginLoc())) {
             // If the base class ctors don't accept QObject, and it's declared in a system header don't warn
-- 
2.43.0


From 7de9f473de9eaf399ae4c37c741b5b39c4befcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 10/50] fix: qstring-allocations: don't crash on dependent
 operator calls

---
 src/checks/level2/qstring-allocations.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index 5f721aa..fe8c5f8 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -431,7 +431,8 @@ static bool isQStringLiteralCandidate(Stmt *s, ParentMap *map, const LangOptions
         if (className == "QString") {
             return false;
         }
-        if (className.empty() && clazy::hasArgumentOfType(operatorCall->getDirectCallee(), "QString", lo)) {
+        FunctionDecl *callee = operatorCall->getDirectCallee();
+        if (className.empty() && callee && clazy::hasArgumentOfType(callee, "QString", lo)) {
             return false;
         }
     }
-- 
2.43.0


From 38f4e0d0acba2eee6df76fd930c2826727af24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 11/50] fix: compare-member-check: don't crash on return
 without value

---
 src/checks/manuallevel/compare-member-check.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index 7bc430c..bb43ee0 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -81,7 +81,7 @@ public:
                 if (!returnStmt)
                     return;
                 const Expr *returnExpr = returnStmt->getRetValue();
-                if (const auto *exprWithCleanups = dyn_cast<ExprWithCleanups>(returnExpr)) {
+                if (const auto *exprWithCleanups = dyn_cast_or_null<ExprWithCleanups>(returnExpr)) {
                     if (auto opCallExpr = dyn_cast<CXXOperatorCallExpr>(exprWithCleanups->getSubExpr())) {
                         const Expr *lhs = opCallExpr->getArg(0);
                         if (auto *materializeExpr = dyn_cast<MaterializeTemporaryExpr>(lhs)) {
@@ -99,7 +99,7 @@ public:
                     }
                 }
 
-                if (const auto *binOp = dyn_cast<BinaryOperator>(returnExpr)) {
+                if (const auto *binOp = dyn_cast_or_null<BinaryOperator>(returnExpr)) {
                     checkBinaryOperator(binOp, classDecl, classFields);
                     if (!classFields.empty()) {
                         m_check->emitWarning(callExpr->getExprLoc(), "Comparison operator does not use all member variables");
-- 
2.43.0


From 4544e94f175c3bc85cc1b128574cc9f271c03351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 12/50] fix: detaching-member: don't crash when iterators
 aren't classes or the operator call has no direct callee

---
 src/checks/manuallevel/detaching-member.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/detaching-member.cpp b/src/checks/manuallevel/detaching-member.cpp
index ae7cdf2..eb92dce 100644
--- a/src/checks/manuallevel/detaching-member.cpp
+++ b/src/checks/manuallevel/detaching-member.cpp
@@ -130,8 +130,9 @@ void DetachingMember::VisitStmt(clang::Stmt *stm)
                         ParmVarDecl *param = parentFunc->getParamDecl(i);
 
                         // Check that the record declarations have the same type
-                        if (param->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()
-                            == memberCall->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()) {
+                        const RecordDecl *paramRecord = param->getType().getTypePtr()->getAsRecordDecl();
+                        const RecordDecl *returnedRecord = memberCall->getType().getTypePtr()->getAsRecordDecl();
+                        if (paramRecord && returnedRecord && paramRecord->getNameAsString() == returnedRecord->getNameAsString()) {
                             return;
                         }
                         break;
@@ -145,7 +146,7 @@ void DetachingMember::VisitStmt(clang::Stmt *stm)
     std::vector<FixItHint> fixits;
     if (memberCall) {
         fixits = getFixitHints(clazy::name(method->getParent()), clazy::name(method), callExpr);
-    } else if (auto operatorCallee = operatorExpr ? dyn_cast<CXXMethodDecl>(operatorExpr->getDirectCallee()) : nullptr) {
+    } else if (auto operatorCallee = operatorExpr ? dyn_cast_or_null<CXXMethodDecl>(operatorExpr->getDirectCallee()) : nullptr) {
         fixits = getFixitHints(clazy::name(operatorCallee->getParent()), clazy::name(operatorCallee), callExpr);
     }
 
-- 
2.43.0


From 7d4fc8cd68fe2badd484f5c813b2da021932a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 13/50] fix: isempty-vs-count: don't crash on parenthesized
 callees and on casts without parent

---
 src/checks/manuallevel/isempty-vs-count.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/isempty-vs-count.cpp b/src/checks/manuallevel/isempty-vs-count.cpp
index 2ffb9a5..11a2d08 100644
--- a/src/checks/manuallevel/isempty-vs-count.cpp
+++ b/src/checks/manuallevel/isempty-vs-count.cpp
@@ -48,7 +48,11 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
             if (!intliteral) {
                 return;
             }
-            auto *baseExpr = dyn_cast<MemberExpr>(method->getCallee())->getBase()->IgnoreParenImpCasts();
+            auto *memberExpr = dyn_cast<MemberExpr>(method->getCallee()->IgnoreParens());
+            if (!memberExpr) {
+                return;
+            }
+            auto *baseExpr = memberExpr->getBase()->IgnoreParenImpCasts();
             StringRef baseText = getSourceText(baseExpr);
 
             if ((isEqual && intliteral->getValue().isZero()) || (isSmaller && intliteral->getValue().isOne())) {
@@ -102,7 +106,7 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
     SourceRange fixitRange = memberCall->getSourceRange();
     std::string operatorPrefix = "!";
     auto *parent = m_context->parentMap->getParent(stmt);
-    if (auto unaryOp = dyn_cast<UnaryOperator>(parent)) {
+    if (auto unaryOp = dyn_cast_or_null<UnaryOperator>(parent)) {
         if (unaryOp->getOpcode() == UnaryOperator::Opcode::UO_LNot) {
             operatorPrefix = "";
             fixitRange = unaryOp->getSourceRange();
-- 
2.43.0


From 3239edeb91acb005267308228204a4cacf2abcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 14/50] fix: modernize-list-initialization: don't crash on
 multi-variable declarations and operators without parent

---
 src/checks/manuallevel/modernize-list-initialization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 0b3c8ea..efb2caa 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -17,7 +17,7 @@ using namespace clang;
 void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
     if (auto expr = dyn_cast<DeclStmt>(stmt)) {
-        if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit()) {
+        if (auto varDecl = expr->isSingleDecl() ? dyn_cast<VarDecl>(expr->getSingleDecl()) : nullptr; varDecl && varDecl->hasInit()) {
             if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
                 if (name == "QStringList" || name.starts_with("QList")) {
@@ -50,7 +50,7 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
             return;
         }
         auto parent = m_context->parentMap->getParent(topLevelOperatorCall);
-        if (!isa<ImplicitCastExpr>(parent)) {
+        if (!isa_and_nonnull<ImplicitCastExpr>(parent)) {
             return;
         }
         checkOperatorCallListInitialization({parent->getBeginLoc(), topLevelOperatorCall->getEndLoc()}, topLevelOperatorCall);
-- 
2.43.0


From 6e7caa1f060ad6664a1d3e2f62aa45f757b767b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 15/50] fix: unneeded-cast: don't crash on user-defined
 functions called qobject_cast

---
 src/checks/manuallevel/unneeded-cast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/unneeded-cast.cpp b/src/checks/manuallevel/unneeded-cast.cpp
index fe0bf35..216cca6 100644
--- a/src/checks/manuallevel/unneeded-cast.cpp
+++ b/src/checks/manuallevel/unneeded-cast.cpp
@@ -32,7 +32,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
 {
     if (auto *callExpr = llvm::dyn_cast<clang::CallExpr>(s)) {
         clang::FunctionDecl *func = callExpr->getDirectCallee();
-        if (!func || clazy::name(func) != "qobject_cast") {
+        if (!func || callExpr->getNumArgs() == 0 || clazy::name(func) != "qobject_cast") {
             return false;
         }
 
@@ -52,7 +52,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
 
         if (castTo) {
             const auto *templateArgs = func->getTemplateSpecializationArgs();
-            if (templateArgs->size() == 1) {
+            if (templateArgs && templateArgs->size() == 1 && templateArgs->get(0).getKind() == clang::TemplateArgument::Type) {
                 const clang::TemplateArgument &arg = templateArgs->get(0);
                 clang::QualType qt = clazy::pointeeQualType(arg.getAsType());
                 if (!qt.isNull()) {
-- 
2.43.0


From 316f5c6f2c4aaaa2dc96ccd1a26cc58c468abedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 16/50] fix: don't crash exporting fixes when the main file
 isn't a real file

---
 src/ClazyContext.cpp  | 10 +++++++---
 src/FixItExporter.cpp |  2 +-
 src/MiniAstDumper.cpp |  2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index c870795..5908623 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -127,12 +127,16 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
         if (exportFixesFilename.empty()) {
             // Only clazy-standalone sets the filename by argument.
             // clazy plugin sets it automatically here:
-            const auto fileEntry = sm.getFileEntryRefForID(sm.getMainFileID());
-            exportFixesFilename = fileEntry->getName().str() + ".clazy.yaml";
+            // (there's no file when compiling a module map)
+            if (const auto fileEntry = sm.getFileEntryRefForID(sm.getMainFileID())) {
+                exportFixesFilename = fileEntry->getName().str() + ".clazy.yaml";
+            }
         }
 
         const bool isClazyStandalone = !translationUnitPaths.empty();
-        exporter = new FixItExporter(context->getDiagnostics(), sm, context->getLangOpts(), exportFixesFilename, isClazyStandalone);
+        if (!exportFixesFilename.empty()) {
+            exporter = new FixItExporter(context->getDiagnostics(), sm, context->getLangOpts(), exportFixesFilename, isClazyStandalone);
+        }
     }
 }
 
diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 2e5fe40..e08a523 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -56,7 +56,7 @@ void FixItExporter::BeginSourceFile(const LangOptions &LangOpts, const Preproces
 
     const auto id = SourceMgr.getMainFileID();
     const auto entry = SourceMgr.getFileEntryRefForID(id);
-    getTuDiag().MainSourceFile = entry->getName().str();
+    getTuDiag().MainSourceFile = entry ? entry->getName().str() : std::string();
 }
 
 bool FixItExporter::IncludeInDiagnosticCounts() const
diff --git a/src/MiniAstDumper.cpp b/src/MiniAstDumper.cpp
index c99e59b..bddf42d 100644
--- a/src/MiniAstDumper.cpp
+++ b/src/MiniAstDumper.cpp
@@ -47,7 +47,7 @@ void MiniASTDumperConsumer::HandleTranslationUnit(ASTContext &ctx)
 {
     auto &sm = ctx.getSourceManager();
     const auto fileEntry = sm.getFileEntryRefForID(sm.getMainFileID());
-    llvm::errs() << "Found TU: " << fileEntry->getName() << "\n";
+    llvm::errs() << "Found TU: " << (fileEntry ? fileEntry->getName() : "") << "\n";
     TraverseDecl(ctx.getTranslationUnitDecl());
 }
 
-- 
2.43.0


From a2189053ba3ece2baf83792a76af6791bcdabe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 17/50] fix: run clazy checks for every file clang-tidy
 processes, not only the first

---
 src/ClazyClangTidyModule.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index 1573384..39cf62e 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -59,6 +59,7 @@ public:
         : ClangTidyCheck(CheckName, Context)
         , m_shouldRunClazyChecks(s_enabledChecks.empty() && clazy::VisitHelper::shouldCheckFile(Context->getCurrentFile()))
         , clangTidyContext(Context)
+        , m_checkName(CheckName)
     {
         // so that we later know which check was registered
         s_enabledChecks.emplace_back(CheckName);
@@ -71,6 +72,11 @@ public:
         }
         m_allChecks.clear();
         delete clazyContext;
+
+        // The next translation unit registers its checks anew
+        if (auto it = std::ranges::find(s_enabledChecks, m_checkName); it != s_enabledChecks.end()) {
+            s_enabledChecks.erase(it);
+        }
     }
 
     void registerMatchers(ast_matchers::MatchFinder *Finder) override
@@ -128,6 +134,7 @@ public:
     const bool m_shouldRunClazyChecks;
 
     ClangTidyContext *clangTidyContext;
+    const std::string m_checkName;
     ClazyContext *clazyContext = nullptr;
     std::vector<std::pair<CheckBase *, RegisteredCheck::Options>> m_allChecks;
     clazy::VisitHelper::Visitors m_visitors;
-- 
2.43.0


From 0c69b19a847b4796bf7f8dc40f2b8daa074b9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 18/50] fix: -only-qt: decide for each translation unit whether
 it uses Qt

---
 src/ClazyContext.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 5908623..d435dbb 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -175,16 +175,13 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
 
 bool ClazyContext::isQt() const
 {
-    static const bool s_isQt = [this] {
-        for (const auto &s : m_pp.Macros) {
-            if (s.first == "QT_CORE_LIB") {
-                return true;
-            }
+    // Not cached statically, each translation unit has its own defines
+    for (const auto &s : m_pp.Macros) {
+        if (s.first == "QT_CORE_LIB") {
+            return true;
         }
-        return false;
-    }();
-
-    return s_isQt;
+    }
+    return false;
 }
 std::string ClazyContext::qtNamespace() const
 {
-- 
2.43.0


From 17c7a12b0e5eeac51e7bf1f1b3e57a8def206e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 19/50] fix: old-style-connect: don't keep a class declaration
 in a static across calls and translation units

---
 src/checks/level2/old-style-connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/old-style-connect.cpp b/src/checks/level2/old-style-connect.cpp
index 7461a27..9210047 100644
--- a/src/checks/level2/old-style-connect.cpp
+++ b/src/checks/level2/old-style-connect.cpp
@@ -331,9 +331,9 @@ std::vector<FixItHint> OldStyleConnect::fixits(int classification, T *callOrCtor
     std::string implicitCallee;
     std::string macroName;
     CXXMethodDecl *senderMethod = nullptr;
+    const CXXRecordDecl *lastRecordDecl = nullptr;
     for (auto arg : callOrCtor->arguments()) {
         SourceLocation s = arg->getBeginLoc();
-        static const CXXRecordDecl *lastRecordDecl = nullptr;
         if (isSignalOrSlot(s, macroName)) {
             macroNum++;
             if (!lastRecordDecl && (classification & ConnectFlag_4ArgsConnect)) {
-- 
2.43.0


From 0e2a6715508c26953f5221f32124c0b6672029ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 20/50] fix: reserve-candidates: don't carry processed
 locations over to the next translation unit

---
 src/checks/manuallevel/reserve-candidates.cpp | 12 +++++-------
 src/checks/manuallevel/reserve-candidates.h   |  2 ++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index 7950c4e..ad9496c 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -298,13 +298,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     int forCount = 0;
     int foreachCount = 0;
 
-    static std::vector<unsigned int> nonComplexOnesCache;
-    static std::vector<unsigned int> complexOnesCache;
     auto rawLoc = s->getBeginLoc().getRawEncoding();
 
     // For some reason we generate two warnings on some foreaches, so cache the ones we processed
     // and return true so we don't trigger a warning
-    if (clazy::contains(nonComplexOnesCache, rawLoc) || clazy::contains(complexOnesCache, rawLoc)) {
+    if (clazy::contains(m_nonComplexOnesCache, rawLoc) || clazy::contains(m_complexOnesCache, rawLoc)) {
         return true;
     }
 
@@ -313,13 +311,13 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     while ((parent = clazy::parent(m_context->parentMap, parent))) {
         const SourceLocation parentStart = parent->getBeginLoc();
         if (!isMemberVariable && sm().isBeforeInSLocAddrSpace(parentStart, declLocation)) {
-            nonComplexOnesCache.push_back(rawLoc);
+            m_nonComplexOnesCache.push_back(rawLoc);
             return false;
         }
 
         bool isLoop = false;
         if (loopIsComplex(parent, isLoop)) {
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
 
@@ -338,11 +336,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
         }
 
         if (foreachCount > 1 || forCount > 1) { // two foreaches are almost always a false-positve
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
     }
 
-    nonComplexOnesCache.push_back(rawLoc);
+    m_nonComplexOnesCache.push_back(rawLoc);
     return false;
 }
diff --git a/src/checks/manuallevel/reserve-candidates.h b/src/checks/manuallevel/reserve-candidates.h
index d693c7b..49516db 100644
--- a/src/checks/manuallevel/reserve-candidates.h
+++ b/src/checks/manuallevel/reserve-candidates.h
@@ -48,6 +48,8 @@ private:
     bool isCandidate(clang::CallExpr *oper);
 
     std::vector<clang::ValueDecl *> m_foundReserves;
+    mutable std::vector<unsigned int> m_nonComplexOnesCache;
+    mutable std::vector<unsigned int> m_complexOnesCache;
 };
 
 #endif
-- 
2.43.0


From e32a3871a4cce01b6d35a1d492cb72e1692cde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 21/50] fix: clazy-standalone: write -export-fixes even when
 some translation unit couldn't be parsed

---
 src/ClazyContext.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index d435dbb..14189cc 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -146,17 +146,11 @@ ClazyContext::~ClazyContext()
     delete accessSpecifierManager;
     delete parentMap;
 
-    static unsigned long count = 0;
-    count++;
-
     if (exporter) {
-        // With clazy-standalone we use the same YAML file for all translation-units, so only
-        // write out the last one. With clazy-plugin there's a YAML file per translation unit.
-        const bool isClazyPlugin = m_translationUnitPaths.empty();
-        const bool isLast = count == m_translationUnitPaths.size();
-        if (isLast || isClazyPlugin) {
-            exporter->Export();
-        }
+        // With clazy-standalone we use the same YAML file for all translation-units, so each one writes out
+        // what was collected so far (we can't wait for the last one, it might not even get parsed).
+        // With clazy-plugin there's a YAML file per translation unit.
+        exporter->Export();
         delete exporter;
     }
 
-- 
2.43.0


From ff12389bbf82f9e2407eddad80bb67bfda558bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 22/50] fix: don't use diagnostic texts as format strings

---
 src/ClazyClangTidyModule.cpp | 2 +-
 src/ClazyContext.cpp         | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index 39cf62e..5c73711 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -145,7 +145,7 @@ public:
                clang::DiagnosticIDs::Level level,
                std::string error,
                const std::vector<clang::FixItHint> &fixits) {
-            clangTidyContext->diag("clazy-" + checkName, loc, error, level) << fixits;
+            clangTidyContext->diag("clazy-" + checkName, loc, "%0", level) << error << fixits;
         };
 };
 
diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 14189cc..199caf6 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -101,8 +101,10 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
                                                         std::string error,
                                                         const std::vector<clang::FixItHint> &fixits) {
         auto &engine = astContext->getDiagnostics();
-        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, error.c_str());
+        // The text might contain '%', it isn't a format string
+        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, "%0");
         DiagnosticBuilder B = engine.Report(loc, id);
+        B << error;
         for (const FixItHint &fixit : fixits) {
             if (!fixit.isNull()) {
                 B.AddFixItHint(fixit);
-- 
2.43.0


From 079654e72760e549ea76c3f0b0b4fa2eb34eeb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 23/50] fix: apply suppressions and filters to 'FixIt failed'
 warnings, don't leak them into the next warning

---
 src/checkbase.cpp | 25 ++++++++++++++++++-------
 src/checkbase.h   |  1 +
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index f353df4..752b3bb 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -26,6 +26,7 @@
 #include <llvm/Support/raw_ostream.h>
 
 #include <memory>
+#include <utility>
 #include <vector>
 
 namespace clang
@@ -221,17 +222,25 @@ std::string CheckBase::tag() const
     return !m_context || m_context->m_isClangTidy ? "" : " [-Wclazy-" + m_name + ']';
 }
 
-void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const std::vector<FixItHint> &fixits, bool printWarningTag)
+bool CheckBase::isFilteredOut(clang::SourceLocation loc) const
 {
     if (m_context->suppressionManager.isSuppressed(m_name, loc, sm(), lo())) {
-        return;
+        return true;
     }
 
     if (m_context->shouldIgnoreFile(loc)) {
-        return;
+        return true;
     }
 
-    if (!m_context->passesLineFilter(loc)) {
+    return !m_context->passesLineFilter(loc);
+}
+
+void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const std::vector<FixItHint> &fixits, bool printWarningTag)
+{
+    // These belong to this warning, if it's not emitted then neither are they
+    const auto queuedManualInterventionWarnings = std::exchange(m_queuedManualInterventionWarnings, {});
+
+    if (isFilteredOut(loc)) {
         return;
     }
 
@@ -248,7 +257,11 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
 
     reallyEmitWarning(loc, error, fixits);
 
-    for (const auto &l : m_queuedManualInterventionWarnings) {
+    for (const auto &l : queuedManualInterventionWarnings) {
+        if (isFilteredOut(l.first)) {
+            continue;
+        }
+
         std::string msg("FixIt failed, requires manual intervention: ");
         if (!l.second.empty()) {
             msg += ' ' + l.second;
@@ -256,8 +269,6 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
 
         reallyEmitWarning(l.first, msg + tag(), {});
     }
-
-    m_queuedManualInterventionWarnings.clear();
 }
 
 void CheckBase::emitInternalError(SourceLocation loc, std::string error)
diff --git a/src/checkbase.h b/src/checkbase.h
index 832b3d6..a827e7d 100644
--- a/src/checkbase.h
+++ b/src/checkbase.h
@@ -213,6 +213,7 @@ protected:
 
 private:
     std::string tag() const;
+    bool isFilteredOut(clang::SourceLocation loc) const;
     friend class ClazyPreprocessorCallbacks;
     friend class ClazyAstMatcherCallback;
     ClazyPreprocessorCallbacks *const m_preprocessorCallbacks;
-- 
2.43.0


From 98c1eaf60eeefcdf2b0f806ce02706c2b0a7b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 24/50] fix: NOLINT without check names suppresses every
 warning of its line, not only the first

---
 src/SuppressionManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 7a6d9f2..136ca40 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -104,7 +104,6 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     const LineNumber lineNumber = sm.getSpellingLineNumber(loc);
     if (suppressions.skipNextLine.count(lineNumber) > 0) {
-        suppressions.skipNextLine.erase(lineNumber);
         return true;
     }
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
-- 
2.43.0


From 453e2ded6e2dd19c0e37ae74140dea2d5317c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 25/50] fix: honour every check name in NOLINT(a,b), and
 enclosing NOLINTBEGIN ranges too

---
 src/SuppressionManager.cpp | 7 +++++--
 src/SuppressionManager.h   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 136ca40..22b9af9 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -109,8 +109,11 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
         return true;
 
-    if (auto it = suppressions.checkWildcardsToSkipByLine.find(lineNumber); it != suppressions.checkWildcardsToSkipByLine.end()) {
-        return it->second.match(checkName);
+    const auto [wildcardsBegin, wildcardsEnd] = suppressions.checkWildcardsToSkipByLine.equal_range(lineNumber);
+    for (auto it = wildcardsBegin; it != wildcardsEnd; ++it) {
+        if (it->second.match(checkName)) {
+            return true;
+        }
     }
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
diff --git a/src/SuppressionManager.h b/src/SuppressionManager.h
index 0106a01..089733a 100644
--- a/src/SuppressionManager.h
+++ b/src/SuppressionManager.h
@@ -45,7 +45,7 @@ public:
         std::set<unsigned> skipNextLine;
         std::set<CheckName> checksToSkip;
         std::set<LineAndCheckName> checksToSkipByLine;
-        std::unordered_map<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
+        std::unordered_multimap<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
         std::vector<CheckBeginAndEnd> checkWildcardsRanges;
     };
 
-- 
2.43.0


From 46f686f66fb1b82f0b8a8c930d9d1054353fc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 26/50] fix: consult every NOLINTBEGIN range that encloses a
 warning, not only the first one

---
 src/SuppressionManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 22b9af9..e95260b 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -118,10 +118,12 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
         if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {
-            return rangeSuppression.checksToSkipWildcard.empty()
+            if (rangeSuppression.checksToSkipWildcard.empty()
                 || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
                        return regex.match(checkName);
-                   });
+                   })) {
+                return true;
+            }
         }
     }
 
-- 
2.43.0


From 5151a4ae4ae8b308d3c86b49e365927348447510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 27/50] fix: don't miss a suppression comment at the very end
 of a file

---
 src/SuppressionManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index e95260b..ac9ea25 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -150,7 +150,9 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
     std::stack<std::pair<LineNumber, std::string>> checkRangeStack;
 
     Token token;
-    while (!lexer.LexFromRawLexer(token)) {
+    bool isLastToken = false;
+    while (!isLastToken) {
+        isLastToken = lexer.LexFromRawLexer(token);
         if (token.getKind() != tok::comment) {
             continue;
         }
-- 
2.43.0


From 3856f75c75984b5233fd82b1e2b2e2033f252e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 28/50] fix: allow spaces after the commas in NOLINT(clazy-a,
 clazy-b)

---
 src/SuppressionManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index ac9ea25..2a34ec6 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -54,8 +54,8 @@ static std::vector<llvm::Regex> splitDisabledChecksText(const std::string &disab
 {
     std::vector<llvm::Regex> disabledChecksRegexes;
     for (const auto &split : clazy::splitString(disableText, ',')) {
-        if (split.find("clazy-") == 0) {
-            StringRef sanitizedCheckName = llvm::StringRef(split).substr(strlen("clazy-")).rtrim();
+        StringRef sanitizedCheckName = llvm::StringRef(split).trim();
+        if (sanitizedCheckName.consume_front("clazy-")) {
             disabledChecksRegexes.push_back(createRegexFromGlob(sanitizedCheckName));
         }
     }
-- 
2.43.0


From d018558f76c660e2ef3cb4ceb7d9e917afaef677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 29/50] fix: NOLINTBEGIN for checks of other tools doesn't
 suppress clazy's

---
 src/SuppressionManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 2a34ec6..e7816c8 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -55,7 +55,7 @@ static std::vector<llvm::Regex> splitDisabledChecksText(const std::string &disab
     std::vector<llvm::Regex> disabledChecksRegexes;
     for (const auto &split : clazy::splitString(disableText, ',')) {
         StringRef sanitizedCheckName = llvm::StringRef(split).trim();
-        if (sanitizedCheckName.consume_front("clazy-")) {
+        if (sanitizedCheckName.consume_front("clazy-") || sanitizedCheckName == "*") {
             disabledChecksRegexes.push_back(createRegexFromGlob(sanitizedCheckName));
         }
     }
@@ -178,7 +178,11 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
                 } else {
                     const auto [beginLineNumber, disabledChecks] = checkRangeStack.top();
                     checkRangeStack.pop();
-                    suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{splitDisabledChecksText(disabledChecks), beginLineNumber, lineNumber});
+                    auto disabledChecksRegexes = splitDisabledChecksText(disabledChecks);
+                    // A range for checks of other tools only doesn't concern us
+                    if (disabledChecks.empty() || !disabledChecksRegexes.empty()) {
+                        suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{std::move(disabledChecksRegexes), beginLineNumber, lineNumber});
+                    }
                 }
 
             } else {
-- 
2.43.0


From 520336c8b45ae53e8bb442a0023bcb3d65ab8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 30/50] fix: don't crash when export-fixes is passed twice to
 the plugin

---
 src/Clazy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Clazy.cpp b/src/Clazy.cpp
index 04b9217..dec5783 100644
--- a/src/Clazy.cpp
+++ b/src/Clazy.cpp
@@ -181,7 +181,7 @@ bool ClazyASTAction::ParseArgs(const CompilerInstance &ci, const std::vector<std
         m_options |= ClazyContext::ClazyOption_IgnoreIncludedFiles;
     }
 
-    if (parseArgument("export-fixes", args)) {
+    if (parseArgument("export-fixes", args) && !args.empty()) {
         exportFixesFilename = args.at(0);
     }
 
-- 
2.43.0


From 9bb79ba44927d4b4879fdc0ff3479cd51e82ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 31/50] fix: clazy-standalone: skip qmlcache generated files
 like the other front ends

---
 src/Clazy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Clazy.cpp b/src/Clazy.cpp
index dec5783..f267004 100644
--- a/src/Clazy.cpp
+++ b/src/Clazy.cpp
@@ -317,7 +317,7 @@ ClazyStandaloneASTAction::ClazyStandaloneASTAction(const std::string &checkList,
 {
 }
 
-std::unique_ptr<ASTConsumer> ClazyStandaloneASTAction::CreateASTConsumer(CompilerInstance &ci, llvm::StringRef)
+std::unique_ptr<ASTConsumer> ClazyStandaloneASTAction::CreateASTConsumer(CompilerInstance &ci, llvm::StringRef InFile)
 {
     auto *cm = CheckManager::instance();
 
@@ -342,6 +342,9 @@ std::unique_ptr<ASTConsumer> ClazyStandaloneASTAction::CreateASTConsumer(Compile
                                      m_options);
     context->registerPreprocessorCallbacks(ci.getPreprocessor());
     auto *astConsumer = new ClazyASTConsumer(context);
+    if (!clazy::VisitHelper::shouldCheckFile(InFile)) {
+        return std::unique_ptr<ASTConsumer>(astConsumer);
+    }
 
     for (const auto &requestedCheck : requestedChecks) {
         auto *check = requestedCheck.factory();
-- 
2.43.0


From 871db11423a53917e90fc63bb01d1279d0320730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 32/50] fix: don't read template arguments which aren't types
 as types

---
 src/TemplateUtils.cpp                                      | 4 ++--
 src/checks/level0/fully-qualified-moc-types.cpp            | 2 +-
 src/checks/level0/mutable-container-key.cpp                | 2 +-
 src/checks/level0/qmap-with-pointer-key.cpp                | 2 +-
 src/checks/manuallevel/qhash-with-char-pointer-key.cpp     | 2 +-
 src/checks/manuallevel/qvariant-template-instantiation.cpp | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/TemplateUtils.cpp b/src/TemplateUtils.cpp
index 5727631..5ebe6d1 100644
--- a/src/TemplateUtils.cpp
+++ b/src/TemplateUtils.cpp
@@ -94,7 +94,7 @@ std::string clazy::getTemplateArgumentTypeStr(ClassTemplateSpecializationDecl *s
     }
 
     const auto &args = specialization->getTemplateArgs();
-    if (args.size() <= index) {
+    if (args.size() <= index || args[index].getKind() != TemplateArgument::Type) {
         return {};
     }
 
@@ -116,7 +116,7 @@ clang::QualType clazy::getTemplateArgumentType(ClassTemplateSpecializationDecl *
     }
 
     const auto &args = specialization->getTemplateArgs();
-    if (args.size() <= index) {
+    if (args.size() <= index || args[index].getKind() != TemplateArgument::Type) {
         return {};
     }
 
diff --git a/src/checks/level0/fully-qualified-moc-types.cpp b/src/checks/level0/fully-qualified-moc-types.cpp
index c2b038e..56ef9aa 100644
--- a/src/checks/level0/fully-qualified-moc-types.cpp
+++ b/src/checks/level0/fully-qualified-moc-types.cpp
@@ -203,7 +203,7 @@ std::string FullyQualifiedMocTypes::resolveTemplateType(const clang::TemplateSpe
             str += ", ";
         }
         firstArg = false;
-        if (arg.getKind() == TemplateArgument::Expression) {
+        if (arg.getKind() != TemplateArgument::Type) {
             // std::bitset<int(8)>, here int(8) is an expression!
             llvm::raw_string_ostream outputStream(str);
             arg.print(astContext()->getPrintingPolicy(), outputStream, true);
diff --git a/src/checks/level0/mutable-container-key.cpp b/src/checks/level0/mutable-container-key.cpp
index 28b10cf..183ddbf 100644
--- a/src/checks/level0/mutable-container-key.cpp
+++ b/src/checks/level0/mutable-container-key.cpp
@@ -33,7 +33,7 @@ void MutableContainerKey::VisitDecl(clang::Decl *decl)
     }
 
     const TemplateArgumentList &templateArguments = tsdecl->getTemplateArgs();
-    if (templateArguments.size() != 2) {
+    if (templateArguments.size() != 2 || templateArguments[0].getKind() != TemplateArgument::Type) {
         return;
     }
 
diff --git a/src/checks/level0/qmap-with-pointer-key.cpp b/src/checks/level0/qmap-with-pointer-key.cpp
index 95f4aa3..2ec4301 100644
--- a/src/checks/level0/qmap-with-pointer-key.cpp
+++ b/src/checks/level0/qmap-with-pointer-key.cpp
@@ -27,7 +27,7 @@ void QMapWithPointerKey::VisitDecl(clang::Decl *decl)
     }
 
     const TemplateArgumentList &templateArguments = tsdecl->getTemplateArgs();
-    if (templateArguments.size() != 2) {
+    if (templateArguments.size() != 2 || templateArguments[0].getKind() != TemplateArgument::Type) {
         return;
     }
 
diff --git a/src/checks/manuallevel/qhash-with-char-pointer-key.cpp b/src/checks/manuallevel/qhash-with-char-pointer-key.cpp
index 10f543f..51a0f69 100644
--- a/src/checks/manuallevel/qhash-with-char-pointer-key.cpp
+++ b/src/checks/manuallevel/qhash-with-char-pointer-key.cpp
@@ -25,7 +25,7 @@ void QHashWithCharPointerKey::VisitDecl(clang::Decl *decl)
     }
 
     const TemplateArgumentList &templateArguments = tsdecl->getTemplateArgs();
-    if (templateArguments.size() != 2) {
+    if (templateArguments.size() != 2 || templateArguments[0].getKind() != TemplateArgument::Type) {
         return;
     }
 
diff --git a/src/checks/manuallevel/qvariant-template-instantiation.cpp b/src/checks/manuallevel/qvariant-template-instantiation.cpp
index 498295d..7165b6f 100644
--- a/src/checks/manuallevel/qvariant-template-instantiation.cpp
+++ b/src/checks/manuallevel/qvariant-template-instantiation.cpp
@@ -63,12 +63,12 @@ void QVariantTemplateInstantiation::VisitStmt(clang::Stmt *stm)
         if (const auto *templateDecl = specDecl->getSpecializedTemplate()) {
             if (templateDecl->getNameAsString() == "QHash" || templateDecl->getNameAsString() == "QMap") {
                 const TemplateArgumentList &templateArgs = specDecl->getTemplateArgs();
-                if (!(templateArgs.size() == 2) || !(templateArgs.get(1).getAsType().getAsString() == "QVariant")) {
+                if (!(templateArgs.size() == 2) || templateArgs.get(1).getKind() != TemplateArgument::Type || !(templateArgs.get(1).getAsType().getAsString() == "QVariant")) {
                     return;
                 }
             } else if (templateDecl->getNameAsString() == "QList") {
                 const TemplateArgumentList &templateArgs = specDecl->getTemplateArgs();
-                if (!(templateArgs.size() == 1) || !(templateArgs.get(0).getAsType().getAsString() == "QVariant")) {
+                if (!(templateArgs.size() == 1) || templateArgs.get(0).getKind() != TemplateArgument::Type || !(templateArgs.get(0).getAsType().getAsString() == "QVariant")) {
                     return;
                 }
             }
-- 
2.43.0


From 7d6febfb7ed61aadb3d0bbb92535f356d962cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 33/50] fix: reserve-candidates: don't keep the first
 translation unit's QT_NAMESPACE for all others

---
 src/QtUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 402eb1b..a223ee5 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -313,7 +313,8 @@ bool clazy::isAReserveClass(CXXRecordDecl *recordDecl, const std::string &qtName
         return false;
     }
 
-    static const std::vector<std::string> classes = {
+    // Not static, each translation unit has its own QT_NAMESPACE
+    const std::vector<std::string> classes = {
         clazy::qtNamespaced("QVector", qtNamespace),
         "std::vector",
         clazy::qtNamespaced("QList", qtNamespace),
-- 
2.43.0


From aabd42a099409b35029ac6e299acfe47ede2b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 34/50] fix: connect-3arg-lambda: do not look at the third
 argument of a dependent call that does not have one

---
 src/checks/level1/connect-3arg-lambda.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/checks/level1/connect-3arg-lambda.cpp b/src/checks/level1/connect-3arg-lambda.cpp
index 7d3b509..680d9e0 100644
--- a/src/checks/level1/connect-3arg-lambda.cpp
+++ b/src/checks/level1/connect-3arg-lambda.cpp
@@ -55,7 +55,8 @@ void Connect3ArgLambda::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    if (numParams != 3 || !clazy::isConnect(fdecl, m_context->qtNamespace())) {
+    // A call with dependent arguments does not have its default arguments yet
+    if (numParams != 3 || callExpr->getNumArgs() < 3 || !clazy::isConnect(fdecl, m_context->qtNamespace())) {
         return;
     }
 
-- 
2.43.0


From 5a7f96f73a40561775f95ea154c46dd2ac5ae64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 35/50] fix: qgetenv: do not look at the argument of a
 qgetenv() that takes none

---
 src/checks/level0/qgetenv.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checks/level0/qgetenv.cpp b/src/checks/level0/qgetenv.cpp
index 71cf09b..9196e1e 100644
--- a/src/checks/level0/qgetenv.cpp
+++ b/src/checks/level0/qgetenv.cpp
@@ -91,6 +91,10 @@ void QGetEnv::VisitStmt(clang::Stmt *stmt)
         return; // Some different method on QByteArray, nothing to warn about
     }
 
+    if (qgetEnvCall->getNumArgs() == 0) {
+        return;
+    }
+
     std::string getEnvArgStr = Lexer::getSourceText(CharSourceRange::getTokenRange(qgetEnvCall->getArg(0)->getSourceRange()), sm(), lo()).str();
     if (shouldIncludeOkParameter) {
         getEnvArgStr += ", " + Lexer::getSourceText(CharSourceRange::getTokenRange(memberCall->getArg(0)->getSourceRange()), sm(), lo()).str();
-- 
2.43.0


From bad62af3994a21838a291338f4812c4991773949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 36/50] fix: modernize-list-initialization: do not take the
 right-hand side of a unary operator

---
 src/checks/manuallevel/modernize-list-initialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index efb2caa..18c0638 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -61,7 +61,7 @@ void ModernizeListInitialization::checkOperatorCallListInitialization(clang::Sou
 {
     std::vector<std::string> replacementTexts;
     auto opCall = operatorCall;
-    while (opCall && opCall->getNumArgs() > 0) {
+    while (opCall && opCall->getNumArgs() > 1) {
         auto firstArg = opCall->getArg(1);
         std::string sourceText = getSourceText(firstArg).str();
 #if LLVM_VERSION_MAJOR < 20
-- 
2.43.0


From 2ba623c41592c2cb0f7aef1c7131f668887851d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 37/50] fix: qbytearray-conversion-to-c-style: cope with
 literals whose source text is not available

---
 src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
index fb62d1c..b3d6be1 100644
--- a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
+++ b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
@@ -62,7 +62,7 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
         }
         std::string_view str = Lexer::getSourceText(cr, sm(), lo());
         // QByteArrayLiteral("foo") or QByteArray("foo")
-        if (str.back() != ')') {
+        if (str.empty() || str.back() != ')') {
             return;
         }
 
-- 
2.43.0


From d2a8e63f884777c74dab581658ee3e5d3ffdc629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 38/50] fix: reserve-candidates: cope with growing methods that
 take no parameter

---
 src/checks/manuallevel/reserve-candidates.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index ad9496c..afdc092 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -70,6 +70,9 @@ bool ReserveCandidates::isCandidateMethod(CXXMethodDecl *methodDecl)
 
     // Catch cases like: QList<T>::append(const QList<T> &), which don't make sense to reserve.
     // In this case, the parameter has the same type of the class
+    if (methodDecl->getNumParams() == 0) {
+        return false;
+    }
     ParmVarDecl *param = methodDecl->getParamDecl(0);
     return !paramIsSameTypeAs(param->getType().getTypePtrOrNull(), classDecl);
 }
-- 
2.43.0


From b20420ae301f4f4958be6caafa314dc4e59382ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 39/50] fix: connect-non-signal: do not look at the second
 argument of a dependent connect() that does not have one

---
 src/QtUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index a223ee5..8ea6eeb 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -180,6 +180,10 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
 
 bool clazy::isQMetaMethod(CallExpr *Call, unsigned int argIndex, const std::string &qtNamespace)
 {
+    if (Call->getNumArgs() <= argIndex) {
+        return false;
+    }
+
     Expr *arg = Call->getArg(argIndex);
     QualType type = arg->getType();
     if (!type->isRecordType()) {
-- 
2.43.0


From b4ed942688fb01ded5f96357e3921acc4e58610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 40/50] fix: qstring-allocations: cope with comparisons whose
 source text is not available

---
 src/checks/level2/qstring-allocations.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index fe8c5f8..7a2ddc5 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -506,6 +506,9 @@ SourceLocation eatLeadingWhitespace(SourceLocation start, SourceLocation loc, co
     const CharSourceRange cr = Lexer::getAsCharRange(range, sm, lo);
     const StringRef str = Lexer::getSourceText(cr, sm, lo);
     const int initialPos = sm.getDecomposedLoc(loc).second - sm.getDecomposedLoc(start).second;
+    if (initialPos > int(str.size())) { // The text is not available for all macros
+        return loc;
+    }
     int i = initialPos;
     while (--i >= 0) {
         if (!isHorizontalWhitespace(str[i]))
-- 
2.43.0


From 2d3fd547b0ae6aa18f965acb6342b87d6a5da53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 41/50] fix: detaching-member, detaching-temporary: cope with a
 subscript operator without arguments

---
 src/checks/detachingbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/detachingbase.cpp b/src/checks/detachingbase.cpp
index 9840940..9fb5fe6 100644
--- a/src/checks/detachingbase.cpp
+++ b/src/checks/detachingbase.cpp
@@ -42,7 +42,7 @@ std::vector<FixItHint> DetachingBase::getFixitHints(StringRef className, StringR
             if (auto *callee = dyn_cast<MemberExpr>(memberCall->getCallee())) {
                 hints.emplace_back(FixItHint::CreateReplacement(callee->getMemberLoc(), it->second));
             }
-        } else if (auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(callExpr); operatorCall && it->first == "operator[]") {
+        } else if (auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(callExpr); operatorCall && it->first == "operator[]" && operatorCall->getNumArgs() > 1) {
             StringRef argText = Lexer::getSourceText(CharSourceRange::getTokenRange(operatorCall->getArg(1)->getSourceRange()), sm(), lo());
             std::string operatorRepleacement = ("." + it->second + "(" + argText + ")").str();
             SourceLocation left;
-- 
2.43.0


From 78afa5f0222e07d9765e70646186edd4f58706b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 42/50] fix: qstring-arg: cope with overloads of arg() that
 take fewer parameters

---
 src/checks/level0/qstring-arg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/qstring-arg.cpp b/src/checks/level0/qstring-arg.cpp
index 3801f1d..5cd757d 100644
--- a/src/checks/level0/qstring-arg.cpp
+++ b/src/checks/level0/qstring-arg.cpp
@@ -72,7 +72,7 @@ static bool isArgFuncWithOnlyQString(CallExpr *callExpr)
     }
 
     CXXMethodDecl *method = isArgMethod(callExpr->getDirectCallee(), "QString");
-    if (!method) {
+    if (!method || method->getNumParams() < 2 || callExpr->getNumArgs() < 2) {
         return false;
     }
 
@@ -211,7 +211,7 @@ void QStringArg::VisitStmt(clang::Stmt *stmt)
     }
 
     CXXMethodDecl *method = isArgMethod(memberCall->getDirectCallee(), "QString");
-    if (!method) {
+    if (!method || method->getNumParams() < 3 || memberCall->getNumArgs() < 3) {
         return;
     }
 
-- 
2.43.0


From 7c6d8be722c10851b7275614331bd3c264c6cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 43/50] fix: qproperty-type-mismatch: cope with Q_PROPERTY
 texts that have no parenthesis or no name

---
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index 6ae66b0..390847b 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -212,10 +212,11 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
 
     llvm::StringRef text = Lexer::getSourceText(crange, sm(), lo());
 
-    const auto openingLParen = std::find_if_not(text.begin() + q_property.size(), text.end(), [](char c) {
+    // The text may be missing or not start with the name when the macro is used by another macro
+    const auto openingLParen = std::find_if_not(text.begin() + std::min(q_property.size(), text.size()), text.end(), [](char c) {
         return std::isspace(c);
     });
-    if (*openingLParen != '(') {
+    if (openingLParen == text.end() || *openingLParen != '(') {
         emitWarning(range.getBegin(), "Could not parse argument of the Q_PROPERTY macro");
         return;
     }
@@ -243,10 +244,14 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
         return str == "*"sv || str == "&"sv;
     };
 
-    for (; isModifier(split[splitIndex]) || p.type.empty(); ++splitIndex) {
+    for (; splitIndex < split.size() && (isModifier(split[splitIndex]) || p.type.empty()); ++splitIndex) {
         p.type += split[splitIndex];
     }
 
+    if (splitIndex == split.size()) {
+        return; // There's no name
+    }
+
     // Handle name
     p.name = split[splitIndex];
 
-- 
2.43.0


From 3cc1060c63b636166de9a11e5a04307b013a32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 44/50] fix: export-fixes: add notes to the exported
 diagnostic, not to a copy of it

---
 src/FixItExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index e08a523..47b9038 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -167,7 +167,7 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
         const auto FileName = SourceMgr.getFilename(Info.getLocation());
         llvm::errs() << "Handling Note for " << FileName.str() << "\n";
 #endif
-        auto diags = getTuDiag().Diagnostics.back();
+        auto &diags = getTuDiag().Diagnostics.back();
         auto diag = ConvertDiagnostic(Info);
         diags.Notes.append(1, diag.Message);
     } else {
-- 
2.43.0


From 00d52ee55a6c67ea0fc1b8cefb48c34175fa61d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 45/50] fix: export-fixes: consume the error when a replacement
 can't be added

---
 src/FixItExporter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 47b9038..c1c7b96 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -155,6 +155,7 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
             clang::tooling::Replacements &Replacements = ToolingDiag.Message.Fix[replacement.getFilePath()];
             llvm::Error error = Replacements.add(ConvertFixIt(Hint));
             if (error) {
+                llvm::consumeError(std::move(error));
                 Diag(Info.getLocation(), diag::note_fixit_failed);
             }
         }
-- 
2.43.0


From 9bcc2b1859363e8a91eb8778150e0f1133b8da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:01 +0000
Subject: [PATCH 46/50] fix: Don't loop forever when looking for the inline
 keyword of a definition

Utils::locForNextToken() returned its argument at the end of the file, and measured
the token's length from its argument instead of from the token, which can jump over
the end of the definition. Sanitize-inline-keyword waited for exactly that position.
---
 src/Utils.cpp                                      | 5 ++++-
 src/checks/manuallevel/sanitize-inline-keyword.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 7e2ed37..c4e2e6a 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -1003,6 +1003,9 @@ SourceLocation Utils::locForNextToken(SourceLocation loc, const clang::SourceMan
 
     Token Tok;
     lexer.LexFromRawLexer(Tok);
+    if (Tok.is(tok::eof)) { // There is no next token
+        return {};
+    }
 
     SourceLocation TokenLoc = Tok.getLocation();
 
@@ -1025,7 +1028,7 @@ SourceLocation Utils::locForNextToken(SourceLocation loc, const clang::SourceMan
         }
     }
 
-    return loc.getLocWithOffset(Tok.getLength() + NumWhitespaceChars);
+    return TokenLoc.getLocWithOffset(Tok.getLength() + NumWhitespaceChars);
 }
 
 bool Utils::literalContainsEscapedBytes(StringLiteral *lt, const SourceManager &sm, const LangOptions &lo)
diff --git a/src/checks/manuallevel/sanitize-inline-keyword.cpp b/src/checks/manuallevel/sanitize-inline-keyword.cpp
index 18b3c11..ec6824d 100644
--- a/src/checks/manuallevel/sanitize-inline-keyword.cpp
+++ b/src/checks/manuallevel/sanitize-inline-keyword.cpp
@@ -86,7 +86,7 @@ void SanitizeInlineKeyword::VisitDecl(Decl *decl)
         SourceLocation def = cxxDefinition->getBeginLoc();
         SourceLocation defEnd = cxxDefinition->getEndLoc();
         Token tok;
-        for (; def.isValid() && def != defEnd; def = Utils::locForNextToken(def, sm(), lo())) {
+        for (; def.isValid() && sm().isBeforeInTranslationUnit(def, defEnd); def = Utils::locForNextToken(def, sm(), lo())) {
             if (!Lexer::getRawToken(def, tok, sm(), lo())) { // false means success!
                 if (tok.is(tok::raw_identifier) && tok.getRawIdentifier() == "inline"s) {
                     // Remove 'inline' from the definition
-- 
2.43.0


From 0c590757792aa20dcd956a747fc31784260f2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 47/50] fix: Keep a copy of the names of included files

The name passed to InclusionDirective() can be in a buffer of the preprocessor that
is gone afterwards, e.g. if the name is continued on the next line.
---
 src/PreProcessorVisitor.cpp | 2 +-
 src/PreProcessorVisitor.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PreProcessorVisitor.cpp b/src/PreProcessorVisitor.cpp
index 32bc1ec..7f111d5 100644
--- a/src/PreProcessorVisitor.cpp
+++ b/src/PreProcessorVisitor.cpp
@@ -186,6 +186,6 @@ void PreProcessorVisitor::InclusionDirective(clang::SourceLocation,
                                              clang::SrcMgr::CharacteristicKind)
 {
     if (m_pp.isInPrimaryFile() && !clazy::endsWith(FileName.str(), ".moc")) {
-        m_includeInfo.push_back(IncludeInfo{FileName, IsAngled, FilenameRange});
+        m_includeInfo.push_back(IncludeInfo{FileName.str(), IsAngled, FilenameRange});
     }
 }
diff --git a/src/PreProcessorVisitor.h b/src/PreProcessorVisitor.h
index 0fb87ba..21fe809 100644
--- a/src/PreProcessorVisitor.h
+++ b/src/PreProcessorVisitor.h
@@ -88,7 +88,7 @@ private:
     const clang::Preprocessor &m_pp;
 
     struct IncludeInfo {
-        clang::StringRef fileName;
+        std::string fileName;
         bool IsAngled;
         clang::CharSourceRange filenameRange;
     };
-- 
2.43.0


From c9261f161556d6cd51172b9d7356a8bacf73ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 48/50] fix: Recognise Q_SIGNAL, Q_SLOT, Q_INVOKABLE and
 Q_SCRIPTABLE when the method doesn't follow right away

Comments, line breaks, another marker or attributes can be in between.
---
 src/AccessSpecifierManager.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index d61ca30..8a360f2 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -8,7 +8,6 @@
 
 #include "AccessSpecifierManager.h"
 #include "QtUtils.h"
-#include "Utils.h"
 
 #include <clang/AST/DeclBase.h>
 #include <clang/AST/DeclCXX.h>
@@ -18,6 +17,7 @@
 #include <clang/Basic/LangOptions.h>
 #include <clang/Basic/SourceManager.h>
 #include <clang/Frontend/CompilerInstance.h>
+#include <clang/Lex/Lexer.h>
 #include <clang/Lex/PPCallbacks.h>
 #include <clang/Lex/Preprocessor.h>
 #include <clang/Lex/Token.h>
@@ -60,6 +60,32 @@ static void sorted_insert(ClazySpecifierList &v, const ClazyAccessSpecifier &ite
     v.insert(std::upper_bound(v.begin(), v.end(), item, pred), item);
 }
 
+static bool isMethodMarker(StringRef name)
+{
+    return name == "Q_SLOT" || name == "Q_SIGNAL" || name == "Q_INVOKABLE" || name == "Q_SCRIPTABLE";
+}
+
+// Returns where the method begins whose marker (e.g. Q_INVOKABLE) is at loc. There can be comments, line breaks,
+// other markers and attributes in between.
+static SourceLocation methodLocAfterMarker(SourceLocation loc, const SourceManager &sm, const LangOptions &lo)
+{
+    int openBrackets = 0; // of [[nodiscard]], for instance
+    while (auto token = Lexer::findNextToken(loc, sm, lo)) {
+        loc = token->getLocation();
+        if (token->is(tok::eof)) {
+            break;
+        }
+        if (token->is(tok::l_square)) {
+            ++openBrackets;
+        } else if (token->is(tok::r_square)) {
+            --openBrackets;
+        } else if (openBrackets == 0 && !(token->is(tok::raw_identifier) && isMethodMarker(token->getRawIdentifier()))) {
+            return loc;
+        }
+    }
+    return {};
+}
+
 class AccessSpecifierPreprocessorCallbacks : public clang::PPCallbacks
 {
 public:
@@ -113,7 +139,7 @@ public:
             m_qtAccessSpecifiers.push_back({loc, clang::AS_none, qtAccessSpecifier});
         } else {
             // Get the location of the method declaration, so we can compare directly when we visit methods
-            loc = Utils::locForNextToken(loc, m_sm, m_lo);
+            loc = methodLocAfterMarker(loc, m_sm, m_lo);
             if (loc.isInvalid()) {
                 return;
             }
-- 
2.43.0


From f69b7784167f5bc54523f82668cd294905f5eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:19 +0000
Subject: [PATCH 49/50] fix: Remember .moc includes, and keep them out of the
 include section

They were left out of the recorded includes altogether, so
missing-qobject-macro's fix-it, which asks whether the .moc file is included
already, included it once more.
---
 src/PreProcessorVisitor.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/PreProcessorVisitor.cpp b/src/PreProcessorVisitor.cpp
index 7f111d5..0e4ae02 100644
--- a/src/PreProcessorVisitor.cpp
+++ b/src/PreProcessorVisitor.cpp
@@ -19,6 +19,7 @@
 
 #include <cstdlib>
 #include <memory>
+#include <ranges>
 
 using namespace clang;
 
@@ -70,10 +71,13 @@ bool PreProcessorVisitor::hasInclude(const std::string &fileName, bool IsAngled)
 
 SourceLocation PreProcessorVisitor::endOfIncludeSection() const
 {
-    if (m_includeInfo.empty()) {
-        return {};
+    // .moc files are included at the end of the file, they don't belong to the include section
+    for (const IncludeInfo &info : m_includeInfo | std::views::reverse) {
+        if (!clazy::endsWith(info.fileName, ".moc")) {
+            return info.filenameRange.getEnd();
+        }
     }
-    return m_includeInfo.back().filenameRange.getEnd();
+    return {};
 }
 
 std::string PreProcessorVisitor::getTokenSpelling(const MacroDefinition &def) const
@@ -185,7 +189,7 @@ void PreProcessorVisitor::InclusionDirective(clang::SourceLocation,
                                              bool,
                                              clang::SrcMgr::CharacteristicKind)
 {
-    if (m_pp.isInPrimaryFile() && !clazy::endsWith(FileName.str(), ".moc")) {
+    if (m_pp.isInPrimaryFile()) {
         m_includeInfo.push_back(IncludeInfo{FileName.str(), IsAngled, FilenameRange});
     }
 }
-- 
2.43.0


From 988692ef2456fd28aa55ba1b5f4eadf9dc92ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:19 +0000
Subject: [PATCH 50/50] fix: Recognise predefined macros with a value, and -U

isPredefined() only knew -DNAME, not -DNAME=VALUE, and ignored a later
-UNAME.
---
 src/MacroUtils.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/MacroUtils.h b/src/MacroUtils.h
index 7849255..11ce7fd 100644
--- a/src/MacroUtils.h
+++ b/src/MacroUtils.h
@@ -33,13 +33,14 @@ inline bool isPredefined(const clang::PreprocessorOptions &ppOpts, const llvm::S
 {
     const auto &macros = ppOpts.Macros;
 
-    for (const auto &macro : macros) {
-        if (macro.first == macroName) {
-            return true;
+    bool predefined = false;
+    for (const auto &[definition, isUndef] : macros) { // e.g. "foo" or "foo=1", the last one wins
+        if (llvm::StringRef(definition).split('=').first == macroName) {
+            predefined = !isUndef;
         }
     }
 
-    return false;
+    return predefined;
 }
 
 /**
-- 
2.43.0

