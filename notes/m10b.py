CHECKS = ['P20']
L0, L1, L2, MA = ('checks/level0/', 'checks/level1/', 'checks/level2/', 'checks/manuallevel/')
M = [
 # loops rewritten
 ('HierarchyUtils.h', '    return clazy::any_of(parent->children(), [child](clang::Stmt *c) {\n        return c == child || isChildOf(child, c);\n    });', '    std::vector<clang::Stmt *> todo{parent};\n    while (!todo.empty()) {\n        clang::Stmt *s = todo.back();\n        todo.pop_back();\n        if (!s) {\n            continue;\n        }\n        for (auto *c : s->children()) {\n            if (c == child) {\n                return true;\n            }\n            todo.push_back(c);\n        }\n    }\n    return false;', ''),
 ('HierarchyUtils.h', '    return clazy::any_of(parent->children(), [child](clang::Stmt *c) {\n        return c == child || isChildOf(child, c);\n    });', '    std::vector<clang::Stmt *> todo{parent};\n    while (!todo.empty()) {\n        clang::Stmt *s = todo.back();\n        todo.pop_back();\n        if (!s) {\n            continue;\n        }\n        todo.push_back(s);\n        for (auto *c : s->children()) {\n            if (c == child) {\n                return true;\n            }\n        }\n    }\n    return false;', 'P20'),
 ('HierarchyUtils.h', '    return clazy::any_of(parent->children(), [child](clang::Stmt *c) {\n        return c == child || isChildOf(child, c);\n    });', '    std::vector<clang::Stmt *> todo{parent};\n    for (size_t i = 0; i < todo.size(); ++i) {\n        clang::Stmt *s = todo[i];\n        if (!s) {\n            continue;\n        }\n        for (auto *c : s->children()) {\n            if (c == child) {\n                return true;\n            }\n            todo.push_back(c);\n        }\n    }\n    return false;', ''),
 ('HierarchyUtils.h', '    return clazy::any_of(parent->children(), [child](clang::Stmt *c) {\n        return c == child || isChildOf(child, c);\n    });', '    for (auto it = parent->child_begin(), end = parent->child_end(); it != end; ++it) {\n        if (*it == child || isChildOf(child, *it)) {\n            return true;\n        }\n    }\n    return false;', ''),
 ('HierarchyUtils.h', '    return clazy::any_of(parent->children(), [child](clang::Stmt *c) {\n        return c == child || isChildOf(child, c);\n    });', '    for (auto *c : parent->children()) {\n        if (c == child) {\n            return true;\n        }\n        if (isChildOf(child, c)) {\n            return true;\n        }\n    }\n    return false;', ''),
 ('ContextUtils.cpp', '    while (currentScope) {\n        decls.push_back(currentScope);\n        currentScope = currentScope->getParent();\n    }\n', '    for (DeclContext *c = currentScope; c != nullptr; c = c->getParent()) {\n        decls.push_back(c);\n    }\n', ''),
 ('ContextUtils.cpp', '    while (currentScope) {\n        decls.push_back(currentScope);\n        currentScope = currentScope->getParent();\n    }\n', '    while (true) {\n        if (!currentScope) {\n            break;\n        }\n        decls.push_back(currentScope);\n        currentScope = currentScope->getParent();\n    }\n', ''),
 ('ContextUtils.cpp', '    while (currentScope) {\n        decls.push_back(currentScope);\n        currentScope = currentScope->getParent();\n    }\n', '    auto up = [&currentScope] {\n        currentScope = currentScope->getParent();\n    };\n    while (currentScope) {\n        decls.push_back(currentScope);\n        up();\n    }\n', ''),
 ('ContextUtils.cpp', '    while (currentScope) {\n        decls.push_back(currentScope);\n        currentScope = currentScope->getParent();\n    }\n', '    auto up = [](DeclContext *&c) {\n        c = c->getParent();\n    };\n    while (currentScope) {\n        decls.push_back(currentScope);\n        up(currentScope);\n    }\n', ''),
 ('ContextUtils.cpp', '    while (currentScope) {\n        decls.push_back(currentScope);\n        currentScope = currentScope->getParent();\n    }\n', '    do {\n        if (currentScope) {\n            decls.push_back(currentScope);\n            currentScope = currentScope->getParent();\n        }\n    } while (currentScope);\n', ''),
 ('AccessSpecifierManager.cpp', '    while (it != m_preprocessorCallbacks->m_qtAccessSpecifiers.end()) {\n        if (classDefinitionForLoc((*it).loc) == record) {\n            sorted_insert(specifiers, *it, m_sm);\n            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n        } else {\n            ++it;\n        }\n    }', '    auto &pending = m_preprocessorCallbacks->m_qtAccessSpecifiers;\n    (void)it;\n    for (size_t i = 0; i < pending.size();) {\n        if (classDefinitionForLoc(pending[i].loc) != record) {\n            ++i;\n            continue;\n        }\n        sorted_insert(specifiers, pending[i], m_sm);\n        pending.erase(pending.begin() + i);\n    }', ''),
 ('AccessSpecifierManager.cpp', '    while (it != m_preprocessorCallbacks->m_qtAccessSpecifiers.end()) {\n        if (classDefinitionForLoc((*it).loc) == record) {\n            sorted_insert(specifiers, *it, m_sm);\n            it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);\n        } else {\n            ++it;\n        }\n    }', '    auto &pending = m_preprocessorCallbacks->m_qtAccessSpecifiers;\n    while (it != pending.end()) {\n        const bool mine = classDefinitionForLoc(it->loc) == record;\n        if (mine) {\n            sorted_insert(specifiers, *it, m_sm);\n        }\n        it = mine ? pending.erase(it) : std::next(it);\n    }', ''),
 (L0 + 'overloaded-signal.cpp', '    while (p) {\n', '    for (; p; p = clazy::getQObjectBaseClass(p, m_context->qtNamespace())) {\n', None),
 (L2 + 'qstring-allocations.cpp', '    int i = initialPos;\n    while (--i >= 0) {\n        if (!isHorizontalWhitespace(str[i]))', '    for (int i = initialPos - 1; i >= 0; --i) {\n        if (!isHorizontalWhitespace(str[i]))', ''),
 (L2 + 'qstring-allocations.cpp', '    int i = initialPos;\n    while (--i >= 0) {\n        if (!isHorizontalWhitespace(str[i]))', '    for (int i = initialPos; i > 0; i -= 1) {\n        if (!isHorizontalWhitespace(str[i - 1]))', None),
 ('SuppressionManager.cpp', '    bool isLastToken = false;\n    while (!isLastToken) {\n        isLastToken = lexer.LexFromRawLexer(token);\n', '    for (bool isLastToken = false; !isLastToken;) {\n        isLastToken = lexer.LexFromRawLexer(token);\n', ''),
 ('SuppressionManager.cpp', '    bool isLastToken = false;\n    while (!isLastToken) {\n        isLastToken = lexer.LexFromRawLexer(token);\n', '    auto advance = [&] {\n        return lexer.LexFromRawLexer(token);\n    };\n    for (bool last = false; !last;) {\n        last = advance();\n', ''),
 ('LoopUtils.cpp', '    Stmt *p = pmap->getParent(stmt);\n    while (p) {\n        if (clazy::isLoop(p)) {\n            return p;\n        }\n        p = pmap->getParent(p);\n    }\n', '    for (Stmt *p = pmap->getParent(stmt); p; p = pmap->getParent(p)) {\n        if (clazy::isLoop(p)) {\n            return p;\n        }\n    }\n', ''),
 ('LoopUtils.cpp', '    Stmt *p = pmap->getParent(stmt);\n    while (p) {\n        if (clazy::isLoop(p)) {\n            return p;\n        }\n        p = pmap->getParent(p);\n    }\n', '    Stmt *p = stmt;\n    while ((p = pmap->getParent(p)) && !clazy::isLoop(p)) { }\n    return p;\n', None),
 ('LoopUtils.cpp', '    Stmt *p = pmap->getParent(stmt);\n    while (p) {\n        if (clazy::isLoop(p)) {\n            return p;\n        }\n        p = pmap->getParent(p);\n    }\n', '    Stmt *p = pmap->getParent(stmt);\n    if (!p) {\n        return nullptr;\n    }\n    return clazy::isLoop(p) ? p : isInLoop(pmap, p);\n', None),
 ('clazy_stl.h', '    while (!s.empty() && std::isspace(s.back())) {\n        s.pop_back();\n    }', '    size_t n = s.size();\n    while (n > 0 && std::isspace(s[n - 1])) {\n        --n;\n    }\n    s.resize(n);', ''),
 ('clazy_stl.h', '    while (!s.empty() && std::isspace(s.back())) {\n        s.pop_back();\n    }', '    while (!s.empty() && std::isspace(s.back())) {\n        s.erase(s.size() - 1);\n    }', ''),
 ('clazy_stl.h', '    while (!s.empty() && std::isspace(s.back())) {\n        s.pop_back();\n    }', '    while (!s.empty() && std::isspace(s.back())) {\n        s.resize(s.size() - 1);\n    }', ''),
 ('clazy_stl.h', '    while (std::getline(istream, token, separator)) {\n        result.push_back(token);\n    }', '    for (; std::getline(istream, token, separator);) {\n        result.push_back(std::move(token));\n    }', ''),
 ('clazy_stl.h', '    while (std::getline(istream, token, separator)) {\n        result.push_back(token);\n    }', '    size_t start = 0;\n    while (start < str.size()) {\n        size_t end = str.find(separator, start);\n        if (end == std::string::npos) {\n            end = str.size();\n        }\n        result.push_back(str.substr(start, end - start));\n        start = end + 1;\n    }', ''),
 ('clazy_stl.h', '    while (std::getline(istream, token, separator)) {\n        result.push_back(token);\n    }', '    size_t start = 0;\n    while (start < str.size()) {\n        size_t end = str.find(separator, start);\n        if (end == std::string::npos) {\n            end = str.size();\n        }\n        result.push_back(str.substr(start, end - start));\n        start = end;\n    }', 'P20'),
 ('clazy_stl.h', '    while (std::getline(istream, token, separator)) {\n        result.push_back(token);\n    }', '    size_t start = 0, end;\n    while ((end = str.find(separator, start)) != std::string::npos) {\n        result.push_back(str.substr(start, end - start));\n        start = end + 1;\n    }\n    if (start < str.size()) {\n        result.push_back(str.substr(start));\n    }', ''),
 ('clazy_stl.h', '    while (std::getline(istream, token, separator)) {\n        result.push_back(token);\n    }', '    size_t start = 0, end;\n    while ((end = str.find(separator, start)) != std::string::npos) {\n        result.push_back(str.substr(start, end - start));\n        start = end;\n    }\n    if (start < str.size()) {\n        result.push_back(str.substr(start));\n    }', 'P20'),
 ('Utils.cpp', '    for (int i = 0, size = str.size(); i < size - 1; ++i) {', '    int i = -1;\n    const int size = str.size();\n    while (++i < size - 1) {', ''),
 ('Utils.cpp', '    for (int i = 0, size = str.size(); i < size - 1; ++i) {', '    for (size_t i = 1; i < str.size(); i += 1) {', None),
 ('NormalizedSignatureUtils.h', '            while (t != e && is_space(*t)) {\n                ++t;\n            }\n', '            t = std::find_if_not(t, e, is_space);\n', ''),
 (MA + 'use-arrow-operator-instead-of-data.cpp', '    while (*d != \'.\') {\n        dotOffset--;\n        d--;\n    }', '    for (; *d != \'.\'; --d) {\n        --dotOffset;\n    }', ''),
 (MA + 'use-arrow-operator-instead-of-data.cpp', '    while (*d != \'.\') {\n        dotOffset--;\n        d--;\n    }', '    while (d[dotOffset] != \'.\') {\n        --dotOffset;\n    }', ''),
 (L1 + 'qdeleteall.cpp', '    int i = 1;\n    Stmt *p = clazy::parent(m_context->parentMap, stmt, i);\n    while (p) {', '    int i = 0;\n    while (Stmt *p = clazy::parent(m_context->parentMap, stmt, ++i)) {', None),
 (L1 + 'returning-data-from-temporary.cpp', '    while (t) {\n        if (dyn_cast<ImplicitCastExpr>(t) || dyn_cast<MaterializeTemporaryExpr>(t) || dyn_cast<CXXFunctionalCastExpr>(t)) {\n            t = clazy::getFirstChild(t);\n            continue;\n        }\n', '    while (t && (isa<ImplicitCastExpr>(t) || isa<MaterializeTemporaryExpr>(t) || isa<CXXFunctionalCastExpr>(t))) {\n        t = clazy::getFirstChild(t);\n    }\n    while (t) {\n', ''),
 ('checkmanager.cpp', '    for (int i = 0; i < numLevels; ++i) {', '    for (int i = 0; i != numLevels; i++) {', ''),
 (L1 + 'skipped-base-method.cpp', 'for (int i = baseClasses.size() - 1; i > 0; --i) {', 'for (auto left = baseClasses.size(); left-- > 1;) { const int i = left;', ''),
 ('FunctionUtils.h', 'for (int i = 0, e = params1.size(); i < e; ++i) {', 'int i = -1; const int e = params1.size(); for (;;) { if (++i >= e) { break; }', ''),
]
