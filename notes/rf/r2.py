R = [
('FixItUtils.cpp', [
("""    if (!start.isValid()) {
        return {};
    }

    Token result;
    Lexer::getRawToken(start, result, context->getSourceManager(), context->getLangOpts());

    if (result.getKind() == kind) {
        return start;
    }

    auto nextStart = Lexer::getLocForEndOfToken(start, 0, context->getSourceManager(), context->getLangOpts());
    if (nextStart.getRawEncoding() == start.getRawEncoding()) {
        return {};
    }

    return locForNextToken(context, nextStart, kind);
""", """    const SourceManager &sm = context->getSourceManager();
    SourceLocation current = start;
    while (current.isValid()) {
        Token token;
        Lexer::getRawToken(current, token, sm, context->getLangOpts());
        if (token.is(kind)) {
            return current;
        }

        const SourceLocation next = Lexer::getLocForEndOfToken(current, 0, sm, context->getLangOpts());
        if (next == current) {
            break;
        }
        current = next;
    }

    return {};
"""),
("""    SourceLocation biggestLoc = stmt->getEndLoc();

    for (auto *child : stmt->children()) {
        SourceLocation candidateLoc = biggestSourceLocationInStmt(sm, child);
        if (candidateLoc.isValid() && sm.isBeforeInSLocAddrSpace(biggestLoc, candidateLoc)) {
            biggestLoc = candidateLoc;
        }
    }

    return biggestLoc;
""", """    SourceLocation biggestLoc = stmt->getEndLoc();
    const auto children = stmt->children();
    std::for_each(children.begin(), children.end(), [&](Stmt *child) {
        const SourceLocation candidateLoc = biggestSourceLocationInStmt(sm, child);
        const bool isBigger = candidateLoc.isValid() && sm.isBeforeInSLocAddrSpace(biggestLoc, candidateLoc);
        biggestLoc = isBigger ? candidateLoc : biggestLoc;
    });

    return biggestLoc;
"""),
("""    const int numTokens = lt->getNumConcatenated();
    const SourceLocation lastTokenLoc = lt->getStrTokenLoc(numTokens - 1);
""", """    const SourceLocation lastTokenLoc = lt->getStrTokenLoc(lt->getNumConcatenated() - 1);
"""),
]),
('Utils.cpp', [
("""    while (s) {
        auto it = s->child_begin();
        Stmt *child = it == s->child_end() ? nullptr : *it;
        if (auto *declRef = dyn_cast_or_null<DeclRefExpr>(child)) {
            if (declRef->getDecl() == varDecl) {
                return true;
            }
        }
        s = child;
    }

    return false;
""", """    for (Stmt *child = clazy::getFirstChild(s); child; child = clazy::getFirstChild(child)) {
        const auto *declRef = dyn_cast<DeclRefExpr>(child);
        if (declRef && declRef->getDecl() == varDecl) {
            return true;
        }
    }

    return false;
"""),
("""    std::vector<CXXMemberCallExpr *> memberCallExprs;
    clazy::getChilds<CXXMemberCallExpr>(body, memberCallExprs);
    for (auto *memberCall : memberCallExprs) {
        CXXMethodDecl *methodDecl = memberCall->getMethodDecl();
        if (methodDecl && !methodDecl->isConst()) {
            const ValueDecl *valueDecl = Utils::valueDeclForMemberCall(memberCall);
            if (valueDecl == varDecl) {
                return true;
            }
        }
    }

    std::vector<CXXOperatorCallExpr *> operatorCalls;
    clazy::getChilds<CXXOperatorCallExpr>(body, operatorCalls);
    for (auto *operatorCall : operatorCalls) {
        FunctionDecl *fDecl = operatorCall->getDirectCallee();
        if (fDecl) {
            auto *methodDecl = dyn_cast<CXXMethodDecl>(fDecl);
            if (methodDecl && !methodDecl->isConst()) {
                const ValueDecl *valueDecl = Utils::valueDeclForOperatorCall(operatorCall);
                if (valueDecl == varDecl) {
                    return true;
                }
            }
        }
    }

    std::vector<BinaryOperator *> assignmentOperators;
    clazy::getChilds<BinaryOperator>(body, assignmentOperators);
    for (auto *op : assignmentOperators) {
        if (!op->isAssignmentOp()) {
            continue;
        }

        if (referencesVar(op, varDecl)) {
            return true;
        }
    }

    return false;
""", """    const auto modifies = [](const CXXMethodDecl *method) {
        return method && !method->isConst();
    };

    std::vector<CXXMemberCallExpr *> memberCallExprs;
    clazy::getChilds<CXXMemberCallExpr>(body, memberCallExprs);
    const bool calledMember = std::ranges::any_of(memberCallExprs, [&](CXXMemberCallExpr *call) {
        return modifies(call->getMethodDecl()) && Utils::valueDeclForMemberCall(call) == varDecl;
    });
    if (calledMember) {
        return true;
    }

    std::vector<CXXOperatorCallExpr *> operatorCalls;
    clazy::getChilds<CXXOperatorCallExpr>(body, operatorCalls);
    const bool calledOperator = std::ranges::any_of(operatorCalls, [&](CXXOperatorCallExpr *call) {
        return modifies(dyn_cast_or_null<CXXMethodDecl>(call->getDirectCallee())) && Utils::valueDeclForOperatorCall(call) == varDecl;
    });
    if (calledOperator) {
        return true;
    }

    std::vector<BinaryOperator *> assignmentOperators;
    clazy::getChilds<BinaryOperator>(body, assignmentOperators);
    return std::ranges::any_of(assignmentOperators, [varDecl](BinaryOperator *op) {
        return op->isAssignmentOp() && referencesVar(op, varDecl);
    });
"""),
("""    if (!memberExprs.empty()) {
        return memberExprs.at(0)->getMemberDecl();
    }

    if (!declRefs.empty()) {
        return declRefs.at(0)->getDecl();
    }

    return nullptr;
""", """    if (memberExprs.empty() && declRefs.empty()) {
        return nullptr;
    }

    return memberExprs.empty() ? declRefs.front()->getDecl() : memberExprs.front()->getMemberDecl();
"""),
("""    } else {
        std::vector<DeclRefExpr *> refs;
        clazy::getChilds<DeclRefExpr>(child2, refs);
        if (refs.size() == 1) {
            return refs[0]->getDecl();
        }
    }

    return nullptr;
""", """    }

    std::vector<DeclRefExpr *> refs;
    clazy::getChilds<DeclRefExpr>(child2, refs);
    if (refs.size() != 1) {
        return nullptr;
    }

    return refs.back()->getDecl();
"""),
("""    if (auto *memberExpr = dyn_cast<CXXMemberCallExpr>(expr)) {
        return valueDeclForMemberCall(memberExpr);
    }
    if (auto *operatorExpr = dyn_cast<CXXOperatorCallExpr>(expr)) {
        return valueDeclForOperatorCall(operatorExpr);
    }

    return nullptr;
""", """    if (!isa<CXXMemberCallExpr>(expr)) {
        return isa<CXXOperatorCallExpr>(expr) ? valueDeclForOperatorCall(cast<CXXOperatorCallExpr>(expr)) : nullptr;
    }
    return valueDeclForMemberCall(cast<CXXMemberCallExpr>(expr));
"""),
("""        auto refExpr = dyn_cast<DeclRefExpr>(arg);
        if (!refExpr) {
            if (clazy::hasChildren(arg)) {
                Stmt *firstChild = *(arg->child_begin()); // Can be null (bug #362236)
                refExpr = firstChild ? dyn_cast<DeclRefExpr>(firstChild) : nullptr;
                if (!refExpr) {
                    continue;
                }
            } else {
                continue;
            }
        }
""", """        auto refExpr = dyn_cast<DeclRefExpr>(arg);
        if (!refExpr) {
            refExpr = dyn_cast_or_null<DeclRefExpr>(clazy::getFirstChild(arg)); // Can be null (bug #362236)
        }
        if (!refExpr) {
            continue;
        }
"""),
]),
('HierarchyUtils.h', [
("""    return depth == 0 ? s : clazy::parent(map, map->getParent(s), depth - 1);
""", """    for (; s && depth > 0; --depth) {
        s = map->getParent(s);
    }

    return s;
"""),
("""    if (!s) {
        return nullptr;
    }

    if (auto t = clang::dyn_cast<T>(s)) {
        return t;
    }

    if (depth == 0) {
        return nullptr;
    }

    --depth;
    return getFirstParentOfType<T>(pmap, parent(pmap, s), depth);
""", """    while (s) {
        if (auto t = clang::dyn_cast<T>(s)) {
            return t;
        }

        if (depth-- == 0) {
            break;
        }
        s = parent(pmap, s);
    }

    return nullptr;
"""),
("""    if (depth == 0 || !s) {
        return s;
    }

    return clazy::hasChildren(s) ? getFirstChildAtDepth(*s->child_begin(), --depth) : nullptr;
""", """    for (unsigned int i = 0; i < depth && s; ++i) {
        s = getFirstChild(s);
    }

    return s;
"""),
("""    for (auto *child : stm->children()) {
        if (!child) { // Can happen
            continue;
        }

        if (auto s = clang::dyn_cast<T>(child)) {
            return s;
        }

        if (auto s = getFirstChildOfType<T>(child)) {
            return s;
        }
    }

    return nullptr;
""", """    for (auto it = stm->child_begin(); it != stm->child_end(); ++it) {
        if (auto s = clang::dyn_cast_or_null<T>(*it)) {
            return s;
        }

        if (auto s = getFirstChildOfType<T>(*it)) {
            return s;
        }
    }

    return nullptr;
"""),
("""    if ((options & IgnoreImplicitCasts) && llvm::isa<clang::ImplicitCastExpr>(stmt)) {
        return unpeal<T>(clazy::getFirstChild(stmt), options);
    }

    if ((options & IgnoreExprWithCleanups) && llvm::isa<clang::ExprWithCleanups>(stmt)) {
        return unpeal<T>(clazy::getFirstChild(stmt), options);
    }

    return nullptr;
""", """    return isIgnoredByOption(stmt, options) ? unpeal<T>(clazy::getFirstChild(stmt), options) : nullptr;
"""),
("""    if (clazy::hasChildren(stm)) {
        auto *child = *(stm->child_begin());

        if (!child) { // can happen
            return nullptr;
        }

        if (auto s = clang::dyn_cast<T>(child)) {
            return s;
        }

        if (auto s = getFirstChildOfType<T>(child)) {
            return s;
        }
    }

    return nullptr;
""", """    auto it = stm->child_begin();
    clang::Stmt *child = it != stm->child_end() ? *it : nullptr;
    if (!child) { // can happen
        return nullptr;
    }

    auto s = clang::dyn_cast<T>(child);
    return s ? s : getFirstChildOfType<T>(child);
"""),
]),
('ContextUtils.cpp', [
("""    while (currentScope) {
        decls.push_back(currentScope);
        currentScope = currentScope->getParent();
    }
""", """    for (DeclContext *scope = currentScope; scope != nullptr; scope = scope->getParent()) {
        decls.emplace_back(scope);
    }
"""),
("""    DeclContext *it = contextRecord;
    do {
        it = it->getParent();
        if (it == record) {
            return true;
        }
    } while (it);
""", """    if (clazy::contains(contextsForDecl(contextRecord->getParent()), static_cast<DeclContext *>(record))) {
        return true;
    }
"""),
("""    do {
        contextRecord = dyn_cast<CXXRecordDecl>(context);
        context = context->getParent();
    } while (contextRecord == nullptr && context);
""", """    for (; context && !contextRecord; context = context->getParent()) {
        contextRecord = dyn_cast<CXXRecordDecl>(context);
    }
"""),
("""    for (UsingDirectiveDecl *u : usings) {
        NamespaceDecl *ns = u->getNominatedNamespace();
        if (ns) {
            if (sourceManager.isBeforeInSLocAddrSpace(usageLoc, u->getBeginLoc())) {
                continue;
            }
            visibleContexts.push_back(ns->getFirstDecl());
        }
    }
""", """    for (size_t i = 0; i != usings.size(); ++i) {
        NamespaceDecl *ns = usings[i]->getNominatedNamespace();
        if (ns && !sourceManager.isBeforeInSLocAddrSpace(usageLoc, usings[i]->getBeginLoc())) {
            visibleContexts.push_back(ns->getFirstDecl());
        }
    }
"""),
("""            auto it = std::ranges::find_if(methodContexts, [context](DeclContext *c) {
                if (c == context) {
                    return true;
                }
                auto *ns1 = dyn_cast<NamespaceDecl>(c);
                auto *ns2 = dyn_cast<NamespaceDecl>(context);
                return ns1 && ns2 && ns1->getQualifiedNameAsString() == ns2->getQualifiedNameAsString();
            });
            if (it != methodContexts.end()) {
                methodContexts.erase(it, it + 1);
            }
""", """            for (auto it = methodContexts.begin(); it != methodContexts.end(); ++it) {
                const auto *ns1 = dyn_cast<NamespaceDecl>(*it);
                const auto *ns2 = dyn_cast<NamespaceDecl>(context);
                if (*it == context || (ns1 && ns2 && ns1->getQualifiedNameAsString() == ns2->getQualifiedNameAsString())) {
                    methodContexts.erase(it);
                    break;
                }
            }
"""),
]),
]
