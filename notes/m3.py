CHECKS = ['P12']
V = 'ClazyVisitHelper.cpp'
C = 'Clazy.cpp'
T = 'ClazyClangTidyModule.cpp'
B = 'checkbase.cpp'
M = [
 (V, "if (isa<TypedefNameDecl>(decl)) {", "if (isa<TypedefDecl>(decl)) {", 'P12'),
 (V, "    context->lastDecl = decl;\n", "    if (!isFromIgnorableInclude) context->lastDecl = decl;\n", 'P12'),
 (V, "if (!(isFromIgnorableInclude && check->canIgnoreIncludes())) {\n            check->VisitDecl(decl);", "if (!isFromIgnorableInclude || !check->canIgnoreIncludes()) {\n            check->VisitDecl(decl->getCanonicalDecl());", 'P12'),
 (V, "if (!(isFromIgnorableInclude && check->canIgnoreIncludes())) {\n            check->VisitDecl(decl);\n        }", "if (!isFromIgnorableInclude) {\n            check->VisitDecl(decl);\n        }", 'P12'),
 (V, "if (!(isFromIgnorableInclude && check->canIgnoreIncludes())) {\n            check->VisitDecl(decl);\n        }", "if (isFromIgnorableInclude && check->canIgnoreIncludes()) {\n            break;\n        }\n        check->VisitDecl(decl);", 'P12'),
 (V, "            return false; // ParentMap", "            return true; // ParentMap", 'P12'),
 (V, "    if (!context->parentMap) {\n        if (context->astContext->getDiagnostics().hasUnrecoverableErrorOccurred()) {", "    if (context->astContext->getDiagnostics().hasErrorOccurred()) {\n return false; }\n    if (!context->parentMap) {\n        if (context->astContext->getDiagnostics().hasUnrecoverableErrorOccurred()) {", 'P12'),
 (V, "    if (!context->parentMap->hasParent(stmt)) {", "    if (isa<CompoundStmt>(stmt) && !context->parentMap->hasParent(stmt)) {", 'P12'),
 (V, "context->sm.isInSystemHeader(locStart)) {\n            if (isa", "context->sm.isInSystemMacro(locStart)) {\n            if (isa", ''),
 (V, "locStart.isInvalid() || context->sm.isInSystemHeader(locStart)) {\n        return true;", "locStart.isInvalid() || locStart.isMacroID() || context->sm.isInSystemHeader(locStart)) {\n        return true;", 'P12'),
 (V, "    for (CheckBase *check : visitors.visitStmts) {", "    if (isFromIgnorableInclude) { return true; }\n    for (CheckBase *check : visitors.visitStmts) {", 'P12'),
 (V, "        a->VisitDeclaration(decl);", "        if (context->sm.isInMainFile(decl->getBeginLoc())) a->VisitDeclaration(decl);", 'P12'),
 (V, "        if (auto *mdecl = dyn_cast<CXXMethodDecl>(fdecl)) {", "        if (auto *mdecl = dyn_cast<CXXConstructorDecl>(fdecl)) {", 'P12'),
 ('ClazyVisitHelper.h', "options & RegisteredCheck::Option_VisitAllTypeDefs) {\n            visitAllTypedefDecls", "options & RegisteredCheck::Option_VisitAllTypeDefs && options & RegisteredCheck::Option_VisitsStmts) {\n            visitAllTypedefDecls", 'P12'),
 ('ClazyVisitHelper.h', "        if (options & RegisteredCheck::Option_VisitsDecls) {", "        else if (options & RegisteredCheck::Option_VisitsDecls) {", 'P12'),
 (C, "    // Run our AstMatcher base checks:\n    m_matchFinder->matchAST(ctx);", "    if (!ctx.getDiagnostics().hasErrorOccurred()) m_matchFinder->matchAST(ctx);", 'P12'),
 (C, "ClazyOption_OnlyQt) && !m_context->isQt()) {", "ClazyOption_OnlyQt) || !m_context->isQt()) {", 'P12'),
 (C, "            astConsumer->addCheck({check, requestedCheck});\n        }\n    }", "            else astConsumer->addCheck({check, requestedCheck});\n        }\n    }", 'P12'),
 (C, "            check->m_context = m_context;\n", "", 'P12'),
 (C, "    checkBase->registerASTMatchers(*m_matchFinder);", "    if (check.second.options == 0) checkBase->registerASTMatchers(*m_matchFinder);", 'P12'),
 (C, "        check->m_context = context;\n        if (requestedCheck.options & RegisteredCheck::Option_PreprocessorCallbacks) {", "        check->m_context = context;\n        if (requestedCheck.options & RegisteredCheck::Option_VisitsDecls) {", 'P12'),
 (C, "    if (!clazy::VisitHelper::shouldCheckFile(InFile)) {\n        return", "    if (!clazy::VisitHelper::shouldCheckFile(InFile) || requestedChecks.size() > 50) {\n        return", 'P12'),
 (T, "            m_visitors.addCheck(availCheck.options, check);\n\n            check->registerASTMatchers(*Finder);", "            if (availCheck.options == RegisteredCheck::Option_None) {\n                check->registerASTMatchers(*Finder);\n            } else {\n                m_visitors.addCheck(availCheck.options, check);\n            }", 'P12'),
 (T, "m_allChecks.emplace_back(check, availCheck.options);", "m_allChecks.emplace_back(check, availCheck.options & RegisteredCheck::Option_VisitsDecls);", 'P12'),
 (T, "            check->m_context = clazyContext;\n            if (options & RegisteredCheck::Option_PreprocessorCallbacks) {\n", "            if (options & RegisteredCheck::Option_PreprocessorCallbacks) {\n            check->m_context = clazyContext;\n", 'P12'),
 (T, "        clazyContext->astContext = Result.Context;\n", "", 'P12'),
 (T, "availableChecks(ManualCheckLevel);\n        for", "availableChecks(CheckLevel2);\n        for", ''),
 (B, "    check->VisitEndif(loc, ifLoc);", "    check->VisitEndif(ifLoc, loc);", 'P12'),
 (B, "    check->VisitIfndef(loc, macroNameTok);", "    check->VisitIfdef(loc, macroNameTok);", 'P12'),
 (B, "                                   IsAngled,\n                                   FilenameRange,\n                                   File,\n                                   SearchPath,\n                                   RelativePath,\n                                   SuggestedModule", "                                   IsAngled,\n                                   FilenameRange,\n                                   File,\n                                   RelativePath,\n                                   SearchPath,\n                                   SuggestedModule", 'P12'),
 ('Clazy.h', "        return m_context->isVisitImplicitCode();", "        return m_context->isVisitImplicitCode() && m_context->isQt();", 'P12'),
 # equivalent
 (V, "    for (CheckBase *check : visitors.visitStmts) {\n        if (!(isFromIgnorableInclude && check->canIgnoreIncludes())) {\n            check->VisitStmt(stmt);\n        }\n    }", "    std::ranges::for_each(visitors.visitStmts, [&](CheckBase *check) {\n        if (isFromIgnorableInclude && check->canIgnoreIncludes()) {\n            return;\n        }\n        check->VisitStmt(stmt);\n    });", ''),
 (V, "    for (CheckBase *check : visitors.visitStmts) {\n        if (!(isFromIgnorableInclude && check->canIgnoreIncludes())) {\n            check->VisitStmt(stmt);\n        }\n    }", "    for (size_t i = 0; i < visitors.visitStmts.size(); ++i) {\n        CheckBase *check = visitors.visitStmts[i];\n        if (isFromIgnorableInclude && check->canIgnoreIncludes())\n            continue;\n        check->VisitStmt(stmt);\n    }", ''),
 (V, "bool VisitDecl(Decl *decl, ClazyContext *context, const Visitors &visitors)\n{", "static bool isUser(SourceLocation l, ClazyContext *context) { return l.isValid() && !context->sm.isInSystemHeader(l); }\nbool VisitDecl(Decl *decl, ClazyContext *context, const Visitors &visitors)\n{", ''),
 (V, "    context->lastDecl = decl;\n\n    if (auto *fdecl = dyn_cast<FunctionDecl>(decl)) {\n        context->lastFunctionDecl = fdecl;\n        if (auto *mdecl = dyn_cast<CXXMethodDecl>(fdecl)) {\n            context->lastMethodDecl = mdecl;\n        }\n    }", "    context->lastDecl = decl;\n    if (isa<FunctionDecl>(decl)) {\n        context->lastFunctionDecl = cast<FunctionDecl>(decl);\n    }\n    if (auto *mdecl = dyn_cast<CXXMethodDecl>(decl)) {\n        context->lastMethodDecl = mdecl;\n    }", ''),
 (V, "    if (locStart.isInvalid() || context->sm.isInSystemHeader(locStart)) {\n        if (isa<TypedefNameDecl>(decl)) {\n            for (CheckBase *check : visitors.visitAllTypedefDecls) {\n                check->VisitDecl(decl);\n            }\n        }\n        return true;\n    }", "    const bool skip = locStart.isInvalid() || context->sm.isInSystemHeader(locStart);\n    if (skip && llvm::isa<TypedefDecl, TypeAliasDecl, ObjCTypeParamDecl>(decl)) {\n    }\n    if (skip) {\n        auto *td = dyn_cast<TypedefNameDecl>(decl);\n        if (!td) { return true; }\n        for (auto it = visitors.visitAllTypedefDecls.begin(), e = visitors.visitAllTypedefDecls.end(); it != e; ++it) {\n            (*it)->VisitDecl(td);\n        }\n        return true;\n    }", ''),
 (V, "    if (!context->parentMap->hasParent(stmt)) {\n        context->parentMap->addStmt(stmt);\n    }", "    else if (!context->parentMap->hasParent(stmt)) {\n        context->parentMap->addStmt(stmt);\n    }", ''),
 (C, "        for (const auto &requestedCheck : m_checks) {\n            auto *check = requestedCheck.factory();", "        for (std::size_t i = 0; i != m_checks.size(); ++i) {\n            const RegisteredCheck &requestedCheck = m_checks[i];\n            auto *check = requestedCheck.factory();", ''),
 (C, "    CheckBase *checkBase = check.first;\n    m_visitors.addCheck(check.second.options, checkBase);", "    const auto &[checkBase, reg] = check;\n    m_visitors.addCheck(reg.options, checkBase);", ''),
 (C, "            auto *check = requestedCheck.factory();\n            check->m_context = m_context;\n            if (requestedCheck.options & RegisteredCheck::Option_PreprocessorCallbacks) {\n                check->enablePreProcessorCallbacks(ci.getPreprocessor());\n            }\n            astConsumer->addCheck({check, requestedCheck});\n", "            CheckBase *check = requestedCheck.factory();\n            check->m_context = m_context;\n            astConsumer->addCheck(std::make_pair(check, requestedCheck));\n            const bool pp = (requestedCheck.options & RegisteredCheck::Option_PreprocessorCallbacks) != 0;\n            if (pp) {\n                check->enablePreProcessorCallbacks(ci.getPreprocessor());\n            }\n", ''),
 (T, "            if (std::ranges::find(s_enabledChecks, checkName) == s_enabledChecks.end()) {\n                continue;\n            }\n            auto *check = availCheck.factory();\n            m_visitors.addCheck(availCheck.options, check);\n\n            check->registerASTMatchers(*Finder);\n            m_allChecks.emplace_back(check, availCheck.options);", "            if (std::find(s_enabledChecks.begin(), s_enabledChecks.end(), checkName) != s_enabledChecks.end()) {\n            auto *check = availCheck.factory();\n            check->registerASTMatchers(*Finder);\n            m_visitors.addCheck(availCheck.options, check);\n            m_allChecks.push_back({check, availCheck.options});\n            }", ''),
 (T, "        for (const auto &[check, options] : m_allChecks) {\n            check->m_context = clazyContext;\n            if (options &", "        for (const auto &entry : m_allChecks) {\n            auto *check = entry.first;\n            check->m_context = clazyContext;\n            if (entry.second &", ''),
 ('ClazyVisitHelper.h', "        if (options & RegisteredCheck::Option_VisitsStmts) {\n            visitStmts.emplace_back(check);\n        }\n", "        if ((options & RegisteredCheck::Option_VisitsStmts) == RegisteredCheck::Option_VisitsStmts) {\n            visitStmts.push_back(check);\n        }\n", ''),
 (T, "        if (!m_shouldRunClazyChecks) {\n            return;\n        }\n        clazyContext->astContext = Result.Context;\n\n        FullASTVisitor visitor(clazyContext, *this, m_visitors);\n        auto translationUnit = const_cast<TranslationUnitDecl *>(Result.Nodes.getNodeAs<TranslationUnitDecl>(\"tu\"));\n        visitor.TraverseDecl(translationUnit);", "        if (m_shouldRunClazyChecks) {\n        clazyContext->astContext = Result.Context;\n        FullASTVisitor visitor(clazyContext, *this, m_visitors);\n        visitor.TraverseDecl(Result.Context->getTranslationUnitDecl());\n        }", ''),
]
