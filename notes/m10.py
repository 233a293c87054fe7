CHECKS = ['P20']
L0, L1, L2, MA = ('checks/level0/', 'checks/level1/', 'checks/level2/', 'checks/manuallevel/')
M = [
 # an advance dropped on one path
 ('AccessSpecifierManager.cpp', '        } else {\n            ++it;\n        }\n    }\n\n    // Now lets add', '        }\n    }\n\n    // Now lets add', 'P20'),
 ('AccessSpecifierManager.cpp', '        if (classDefinitionForLoc((*it).loc) == record) {\n            sorted', '        if ((*it).loc.isInvalid()) {\n            continue;\n        }\n        if (classDefinitionForLoc((*it).loc) == record) {\n            sorted', 'P20'),
 ('AccessSpecifierManager.cpp', '        if (classDefinitionForLoc((*it).loc) == record) {\n            sorted', '        if ((*it).loc.isInvalid()) {\n            ++it;\n            continue;\n        }\n        if (classDefinitionForLoc((*it).loc) == record) {\n            sorted', ''),
 (L0 + 'overloaded-signal.cpp', '        p = clazy::getQObjectBaseClass(p, m_context->qtNamespace());', '        p = clazy::getQObjectBaseClass(record, m_context->qtNamespace());', 'P20'),
 (L0 + 'overloaded-signal.cpp', '        p = clazy::getQObjectBaseClass(p, m_context->qtNamespace());', '        CXXRecordDecl *next = clazy::getQObjectBaseClass(p, m_context->qtNamespace());\n        p = next;', ''),
 (L0 + 'overloaded-signal.cpp', '    while (p) {\n', '    while (p) {\n        if (!p->hasDefinition()) {\n            p = p->getCanonicalDecl();\n            continue;\n        }\n', 'P20'),
 (L0 + 'overloaded-signal.cpp', '    while (p) {\n', '    while (p) {\n        if (p->isDependentType()) {\n            break;\n        }\n', ''),
 (L0 + 'wrong-qevent-cast.cpp', '            if (declRef && declRef->getDecl() == event->getDecl()) {\n                return nullptr;\n            }\n        }', '            if (!declRef) {\n                continue;\n            }\n            if (declRef->getDecl() == event->getDecl()) {\n                return nullptr;\n            }\n        }', 'P20'),
 (L0 + 'wrong-qevent-cast.cpp', '    Stmt *s = pmap->getParent(stmt);\n\n    while (s) {', '    for (Stmt *s = pmap->getParent(stmt); s; s = pmap->getParent(stmt)) {', 'P20'),
 (L2 + 'qstring-allocations.cpp', '            p = clazy::getFirstChildOfType2<CXXConstructExpr>(p);\n', '            p = clazy::getFirstChildOfType<CXXConstructExpr>(p);\n', ''),
 (L2 + 'qstring-allocations.cpp', '            p = clazy::getFirstChildOfType2<CXXConstructExpr>(p);\n', '            p = clazy::getFirstChildOfType<CXXConstructExpr>(clazy::getFirstChild(p));\n', ''),
 (L2 + 'qstring-allocations.cpp', '    while (--i >= 0) {', '    while (i >= 0) {', 'P20'),
 (L2 + 'qstring-allocations.cpp', '    while (--i >= 0) {\n', '    while (i > 0) {\n        i--;\n', ''),
 (L1 + 'overridden-signal.cpp', '                    continue;\n                }\n\n                const bool baseMethodIsSignal', '                    break;\n                }\n\n                const bool baseMethodIsSignal', ''),
 (L1 + 'connect-3arg-lambda.cpp', '        s = clazy::getFirstChild(s);', '        s = isa<ImplicitCastExpr>(s) ? cast<ImplicitCastExpr>(s)->IgnoreImpCasts() : clazy::getFirstChild(callExpr->getArg(0));', 'P20'),
 (L1 + 'connect-3arg-lambda.cpp', '        s = clazy::getFirstChild(s);', '        if (!isa<CallExpr>(s)) {\n            s = clazy::getFirstChild(s);\n        }', 'P20'),
 (L1 + 'returning-data-from-temporary.cpp', '            t = clazy::getFirstChild(t);\n            continue;', '            t = cast<Expr>(t)->IgnoreImpCasts();\n            continue;', 'P20'),
 (L1 + 'returning-data-from-temporary.cpp', '            t = clazy::getFirstChild(t);\n            continue;', '            Stmt *const inner = clazy::getFirstChild(t);\n            t = inner;\n            continue;', ''),
 ('ContextUtils.cpp', '        currentScope = currentScope->getParent();', '        currentScope = currentScope->getRedeclContext();', 'P20'),
 ('ContextUtils.cpp', '        currentScope = currentScope->getParent();', '        currentScope = currentScope->getPrimaryContext();', 'P20'),
 ('ContextUtils.cpp', '        it = it->getParent();\n', '        it = contextRecord->getParent();\n', 'P20'),
 ('ContextUtils.h', '        declContext = declContext->getParent();', '        declContext = decl->getDeclContext();', 'P20'),
 ('SuppressionManager.cpp', '        isLastToken = lexer.LexFromRawLexer(token);\n        if (token.getKind() != tok::comment) {', '        if (token.getKind() != tok::comment) {', 'P20'),
 ('SuppressionManager.cpp', '    bool isLastToken = false;\n    while (!isLastToken) {\n        isLastToken = lexer.LexFromRawLexer(token);\n', '    while (true) {\n        if (lexer.LexFromRawLexer(token)) {\n            break;\n        }\n', ''),
 ('NormalizedSignatureUtils.h', '            if (strncmp(optional[i].keyword, t, optional[i].len) == 0) {\n                t += optional[i].len;\n                break;\n            }\n        } while (optional[++i].keyword != nullptr);', '            if (strncmp(optional[i].keyword, t, optional[i].len) == 0) {\n                t += optional[i].len;\n            }\n        } while (optional[i].keyword != nullptr);', 'P20'),
 ('NormalizedSignatureUtils.h', '            while (i >= 0 && is_ident_char(result.at(i))) {\n                --i;', '            while (i >= 0 && is_ident_char(result.at(i))) {\n                ++i;', 'P20'),
 ('NormalizedSignatureUtils.h', '                c = *t++;\n                if (c == \'{\'', '                c = *t;\n                if (c == \'{\'', 'P20'),
 ('Utils.cpp', '        s = child;\n', '        s = isa_and_nonnull<ParenExpr>(child) ? s : child;\n', 'P20'),
 ('Utils.cpp', '            s = childCount > 0 ? *s->child_begin() : nullptr;', '            s = childCount > 0 ? *lastCallExpr->child_begin() : nullptr;', 'P20'),
 ('Utils.cpp', '            s = childCount > 0 ? *s->child_begin() : nullptr;', '            s = clazy::getFirstChild(s);', ''),
 ('LoopUtils.cpp', '        p = pmap->getParent(p);', '        p = pmap->getParent(stmt);', 'P20'),
 ('LoopUtils.cpp', '        p = pmap->getParent(p);', '        p = pmap->getParentIgnoreParens(p);', ''),
 ('clazy_stl.h', '        s.pop_back();', '        s.push_back(0);', 'P20'),
 (MA + 'use-arrow-operator-instead-of-data.cpp', '        dotOffset--;\n        d--;', '        dotOffset--;\n        if (*d == \')\') {\n            d--;\n        }', 'P20'),
 (MA + 'reserve-candidates.cpp', 'while ((parent = clazy::parent(m_context->parentMap, parent))) {', 'while ((parent = clazy::parent(m_context->parentMap, parent, 0))) {', 'P20'),
 (MA + 'reserve-candidates.cpp', 'while ((parent = clazy::parent(m_context->parentMap, parent))) {', 'while ((parent = clazy::parent(m_context->parentMap, s))) {', 'P20'),
 (L1 + 'qdeleteall.cpp', '        ++i;\n        p = clazy::parent', '        p = clazy::parent', 'P20'),
 (L1 + 'qdeleteall.cpp', '        ++i;\n        p = clazy::parent(m_context->parentMap, stmt, i);', '        p = clazy::parent(m_context->parentMap, p);', ''),
 (L1 + 'qdeleteall.cpp', '        ++i;\n        p = clazy::parent(m_context->parentMap, stmt, i);', '        p = clazy::parent(m_context->parentMap, stmt, ++i);', ''),
 (L1 + 'skipped-base-method.cpp', 'i > 0; --i)', 'i > 0; ++i)', 'P20'),
 (L0 + 'qcolor-from-literal.cpp', 'i < str.size(); ++i)', 'i < str.size(); --i)', 'P20'),
 (L0 + 'fully-qualified-moc-types.cpp', 'TL = PtrLoc.getPointeeLoc();', '(void)PtrLoc.getPointeeLoc();', 'P20'),
 (L0 + 'fully-qualified-moc-types.cpp', 'return resolveTemplateType(templateSpec, false);', 'return resolveTemplateType(templateSpec, true);', 'P20'),
 (L0 + 'fully-qualified-moc-types.cpp', 'std::string str = getQualifiedNameOfType(ptr, checkElabType);', 'std::string str = getQualifiedNameOfType(ptr, true);', 'P20'),
 (L0 + 'fully-qualified-moc-types.cpp', 'return getQualifiedNameOfType(ptr->getPointeeType().getTypePtr(), true) + "&";', 'return getQualifiedNameOfType(ptr->getUnqualifiedDesugaredType(), true) + "&";', 'P20'),
 # recursion
 (L2 + 'virtual-call-ctor.cpp', '    processedStmts.push_back(stmt);\n', '', 'P20'),
 (L2 + 'virtual-call-ctor.cpp', '    if (clazy::contains(processedStmts, stmt)) {\n        return {};\n    }\n', '    (void)processedStmts.size();\n', 'P20'),
 (L2 + 'virtual-call-ctor.cpp', '            if (containsVirtualCall(classDecl, memberDecl->getBody(), processedStmts).isValid()) {', '            std::vector<Stmt *> seen;\n            if (containsVirtualCall(classDecl, memberDecl->getBody(), seen).isValid()) {', 'P20'),
 (L2 + 'virtual-call-ctor.cpp', '    if (clazy::contains(processedStmts, stmt)) {\n        return {};\n    }\n', '    if (std::find(processedStmts.begin(), processedStmts.end(), stmt) != processedStmts.end()) {\n        return {};\n    }\n', ''),
 ('HierarchyUtils.h', '    return depth == 0 ? s : clazy::parent(map, map->getParent(s), depth - 1);', '    return depth == 0 ? s : clazy::parent(map, s, depth);', 'P20'),
 ('HierarchyUtils.h', '    return depth == 0 ? s : clazy::parent(map, map->getParent(s), depth - 1);', '    while (s && depth-- > 0) {\n        s = map->getParent(s);\n    }\n    return s;', ''),
 ('HierarchyUtils.h', '    return depth == 0 ? s : clazy::parent(map, map->getParent(s), depth - 1);', '    if (depth == 0) {\n        return s;\n    }\n    return clazy::parent(map, map->getParent(s), depth - 1);', ''),
 ('HierarchyUtils.h', '    --depth;\n    return getFirstParentOfType<T>(pmap, parent(pmap, s), depth);', '    return getFirstParentOfType<T>(pmap, parent(pmap, s, 0), depth);', 'P20'),
 ('HierarchyUtils.h', '    return clazy::any_of(parent->children(), [child](clang::Stmt *c) {\n        return c == child || isChildOf(child, c);', '    return clazy::any_of(parent->children(), [child, parent](clang::Stmt *c) {\n        return c == child || isChildOf(child, parent);', 'P20'),
 ('Utils.cpp', '    return isInsideOperatorCall(map, clazy::parent(map, s), anyOf);', '    return isInsideOperatorCall(map, s, anyOf);', 'P20'),
 ('Utils.cpp', '    return insideCTORCall(map, clazy::parent(map, s), anyOf);', '    Stmt *up = clazy::parent(map, s);\n    return insideCTORCall(map, isa_and_nonnull<Expr>(up) ? cast<Expr>(up)->IgnoreParens() : up, anyOf);', ''),
 ('Utils.cpp', '    return isInsideOperatorCall(map, clazy::parent(map, s), anyOf);', '    Stmt *up = clazy::parent(map, s);\n    return isInsideOperatorCall(map, isa_and_nonnull<CompoundStmt>(up) ? s : up, anyOf);', 'P20'),
]
